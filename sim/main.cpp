// Driver: forks one process per simulated run, gates, minimises and replays.
#include "plan.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

using namespace rt;

static double wallNow() {
	timespec t;
	clock_gettime( CLOCK_MONOTONIC, &t );
	return t.tv_sec + t.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- one run in a child process
static const size_t SHM = 8 << 20;
static char* shm;

struct Result {
	std::string status, cls, msg;
	u64 logHash = 0, schedHash = 0, logLines = 0, switches = 0, preempt = 0, syscalls = 0,
		callbacks = 0, mem = 0;
	i64 simNs = 0;
	std::map<std::string, u64> fault, probe;
	std::vector<Deviation> rec;
	bool bad() const { return status == "violation"; }
};

static void childEnd( const char* status, const std::string& cls, const std::string& msg ) {
	std::string s;
	RunStats& st = stats();
	char b[512];
	snprintf( b, sizeof b, "stat %llu %llu %llu %llu %llu %llu %llu %llu %lld\n",
			  (unsigned long long)st.logHash, (unsigned long long)st.schedHash,
			  (unsigned long long)st.logLines, (unsigned long long)st.switches,
			  (unsigned long long)st.preemptions, (unsigned long long)st.syscalls,
			  (unsigned long long)st.callbacks, (unsigned long long)st.memAccesses,
			  (long long)now( CLK_MONO ) );
	s += b;
	for ( auto& f : counters().fault )
		s += "fault " + f.first + " " + std::to_string( f.second ) + "\n";
	for ( auto& f : counters().probe )
		s += "probe " + f.first + " " + std::to_string( f.second ) + "\n";
	for ( auto& d : recorded() ) {
		snprintf( b, sizeof b, "dev %d %llu %d\n", d.fiber, (unsigned long long)d.point, d.target );
		s += b;
	}
	s += std::string( "status " ) + status + " " + cls + "\n" + msg;
	if ( s.size() + 1 > SHM - 8 )
		s.resize( SHM - 9 );
	memcpy( shm + 8, s.c_str(), s.size() + 1 );
	*(volatile u64*)shm = s.size();
	_exit( 0 );
}

static int timedOut;
static Result runOnce( const Plan& p, bool trace = false ) {
	Result r;
	*(volatile u64*)shm = 0;
	fflush( stdout );
	pid_t pid = fork();
	if ( pid < 0 ) {
		r.status = "error";
		return r;
	}
	if ( pid == 0 ) {
		struct rlimit rl = { 60, 60 };
		setrlimit( RLIMIT_CPU, &rl );
		rl = { 0, 0 };
		setrlimit( RLIMIT_CORE, &rl );
		runPlan( p, trace, childEnd );
		_exit( 0 );
	}
	int wst = 0;
	while ( waitpid( pid, &wst, 0 ) < 0 && errno == EINTR )
		;
	if ( !*(volatile u64*)shm ) {
		char b[64];
		snprintf( b, sizeof b, "child died: status 0x%x", wst );
		r.status = "error";
		r.msg = b;
		return r;
	}
	std::istringstream is( std::string( shm + 8, *(volatile u64*)shm ) );
	std::string line;
	while ( std::getline( is, line ) ) {
		if ( line.compare( 0, 7, "status " ) == 0 ) {
			auto v = splitWs( line );
			r.status = v[1];
			r.cls = v.size() > 2 ? v[2] : "";
			std::string rest( ( std::istreambuf_iterator<char>( is ) ),
							  std::istreambuf_iterator<char>() );
			r.msg = rest;
			break;
		}
		std::istringstream ls( line );
		std::string k, n;
		ls >> k;
		if ( k == "stat" )
			ls >> r.logHash >> r.schedHash >> r.logLines >> r.switches >> r.preempt >> r.syscalls >>
				r.callbacks >> r.mem >> r.simNs;
		else if ( k == "fault" ) {
			ls >> n;
			ls >> r.fault[n];
		} else if ( k == "probe" ) {
			ls >> n;
			ls >> r.probe[n];
		} else if ( k == "dev" ) {
			Deviation d;
			ls >> d.fiber >> d.point >> d.target;
			r.rec.push_back( d );
		}
	}
	r.simNs -= 1000ll * SEC;
	return r;
}

static std::string symbolizeMsg( const std::string& m ) {
	std::set<std::string> pcs;
	for ( size_t p = 0; ( p = m.find( "{{", p ) ) != std::string::npos; p += 2 ) {
		size_t e = m.find( "}}", p );
		if ( e == std::string::npos )
			break;
		pcs.insert( m.substr( p + 2, e - p - 2 ) );
	}
	if ( pcs.empty() )
		return m;
	char exe[512];
	ssize_t n = readlink( "/proc/self/exe", exe, sizeof exe - 1 );
	exe[n > 0 ? n : 0] = 0;
	std::string cmd = std::string( "addr2line -Cfse '" ) + exe + "'";
	std::vector<std::string> order( pcs.begin(), pcs.end() );
	for ( auto& p : order ) {
		char b[32];
		snprintf( b, sizeof b, " %lx", strtoul( p.c_str(), 0, 16 ) - 1 );
		cmd += b;
	}
	std::map<std::string, std::string> name;
	FILE* f = popen( ( cmd + " 2>/dev/null" ).c_str(), "r" );
	char l1[2048], l2[2048];
	for ( auto& p : order ) {
		if ( !f || !fgets( l1, sizeof l1, f ) || !fgets( l2, sizeof l2, f ) )
			break;
		std::string fn( l1 ), ln( l2 );
		while ( !fn.empty() && fn.back() == '\n' )
			fn.pop_back();
		while ( !ln.empty() && ln.back() == '\n' )
			ln.pop_back();
		size_t q = fn.find( '(' );
		if ( q != std::string::npos && q > 0 )
			fn = fn.substr( 0, q );
		if ( fn.size() > 90 )
			fn = fn.substr( 0, 90 ) + "~";
		name[p] = fn + "@" + ln;
	}
	if ( f )
		pclose( f );
	std::string out;
	for ( size_t p = 0; p < m.size(); ) {
		if ( m.compare( p, 2, "{{" ) == 0 ) {
			size_t e = m.find( "}}", p );
			if ( e != std::string::npos ) {
				std::string pc = m.substr( p + 2, e - p - 2 );
				out += name.count( pc ) ? name[pc] : pc;
				p = e + 2;
				continue;
			}
		}
		out += m[p++];
	}
	return out;
}

// ---------------------------------------------------------------- minimisation
static u64 mixSeed( u64 a, u64 b ) {
	u64 x = a * 0x9e3779b97f4a7c15ull + b;
	Rng::mix( x );
	return Rng::mix( x );
}

struct Shrinker {
	std::string cls;
	double deadline;
	int runs = 0;
	bool expired() { return wallNow() > deadline; }
	// does some schedule of this plan still fail the same way?
	bool fails( Plan& p, int tries ) {
		Plan q = p;
		for ( int k = 0; k < tries && !expired(); k++ ) {
			if ( k )
				q.sched.seed = mixSeed( p.sched.seed, (u64)k );
			runs++;
			Result r = runOnce( q );
			if ( r.bad() && r.cls == cls ) {
				p.sched = q.sched;
				return true;
			}
		}
		return false;
	}
	template <class T> bool dropFrom( Plan& p, std::vector<T>& v, int tries ) {
		bool any = false;
		for ( size_t chunk = v.size() > 8 ? v.size() / 2 : 1; chunk >= 1; chunk /= 2 ) {
			for ( size_t i = 0; i < v.size() && !expired(); ) {
				std::vector<T> save = v;
				SchedSpec ss = p.sched;
				v.erase( v.begin() + i, v.begin() + std::min( v.size(), i + chunk ) );
				if ( fails( p, tries ) )
					any = true;
				else {
					v = save;
					p.sched = ss;
					i += chunk;
				}
			}
			if ( chunk == 1 )
				break;
		}
		return any;
	}
	void shrink( Plan& p, bool schedMatters ) {
		int tries = schedMatters ? 12 : 2;
		bool again = true;
		for ( int round = 0; again && round < 6 && !expired(); round++ ) {
			again = false;
			// whole phases, last first
			for ( size_t i = p.phases.size(); i-- > 0 && p.phases.size() > 1 && !expired(); ) {
				Plan q = p;
				q.phases.erase( q.phases.begin() + i );
				for ( auto& f : q.faults )
					if ( f.phase > (int)i )
						f.phase--;
				if ( fails( q, tries ) ) {
					p = q;
					again = true;
				}
			}
			again |= dropFrom( p, p.faults, tries );
			again |= dropFrom( p, p.cbs, tries );
			// the same operation in every phase (repetition plans)
			size_t len = p.phases[0].ops.size();
			bool same = p.phases.size() > 3;
			for ( auto& ph : p.phases )
				same &= ph.ops.size() == len;
			for ( size_t i = len; same && i-- > 0 && !expired(); ) {
				Plan q = p;
				for ( auto& ph : q.phases )
					ph.ops.erase( ph.ops.begin() + i );
				if ( fails( q, tries ) ) {
					p = q;
					again = true;
				}
			}
			for ( size_t i = p.phases.size(); i-- > 0; )
				again |= dropFrom( p, p.phases[i].ops, tries );
			again |= dropFrom( p, p.init, tries );
			for ( auto it = p.cfg.begin(); it != p.cfg.end() && !expired(); ) {
				Plan q = p;
				std::string k = it->first;
				++it;
				if ( k == "slack_ms" || k == "race" || k == "links" || k == "overlap" || k == "mounts" || k == "strictmod" )
					continue;
				q.cfg.erase( k );
				if ( fails( q, tries ) ) {
					p = q;
					it = p.cfg.upper_bound( k );
					again = true;
				}
			}
		}
	}
	bool failsExact( const Plan& p ) {
		runs++;
		Result r = runOnce( p );
		return r.bad() && r.cls == cls;
	}
	// delta-debug the recorded scheduling deviations
	void shrinkSchedule( Plan& p ) {
		std::vector<Deviation>& v = p.sched.dev;
		{
			std::vector<Deviation> save = v;
			v.clear();
			if ( failsExact( p ) )
				return;
			v = save;
		}
		size_t chunk = std::max<size_t>( 1, v.size() / 2 );
		while ( !expired() ) {
			bool any = false;
			for ( size_t i = 0; i < v.size() && !expired(); ) {
				std::vector<Deviation> save = v;
				v.erase( v.begin() + i, v.begin() + std::min( v.size(), i + chunk ) );
				if ( failsExact( p ) )
					any = true;
				else {
					v = save;
					i += chunk;
				}
			}
			if ( chunk == 1 && !any )
				break;
			if ( chunk > 1 )
				chunk /= 2;
		}
	}
};

static bool sameRun( const Result& a, const Result& b ) {
	return a.status == b.status && a.cls == b.cls && a.logHash == b.logHash &&
		   a.schedHash == b.schedHash && a.msg == b.msg;
}

static std::string readFile( const std::string& f ) {
	std::ifstream in( f );
	return std::string( ( std::istreambuf_iterator<char>( in ) ), std::istreambuf_iterator<char>() );
}
static std::string jstr( const std::string& s ) {
	std::string o = "\"";
	for ( unsigned char c : s ) {
		if ( c == '"' || c == '\\' )
			( o += '\\' ) += (char)c;
		else if ( c == '\n' )
			o += "\\n";
		else if ( c < 32 || c > 126 ) {
			char b[8];
			snprintf( b, sizeof b, "\\u%04x", c );
			o += b;
		} else
			o += (char)c;
	}
	return o + "\"";
}

// known findings: "<property> <class> <substring of the message>"
struct Known {
	std::string prop, cls, match, line;
};
static std::vector<Known> loadKnown( const std::string& f ) {
	std::vector<Known> v;
	std::istringstream is( readFile( f ) );
	std::string l;
	while ( std::getline( is, l ) ) {
		auto w = splitWs( l );
		if ( w.size() < 4 || w[0] != "match" )
			continue;
		Known k;
		k.prop = w[1];
		k.cls = w[2];
		size_t p = l.find( w[3], l.find( w[2] ) + w[2].size() );
		k.match = l.substr( p );
		v.push_back( k );
	}
	return v;
}

// ---------------------------------------------------------------- modes
static int modeBatch( int argc, char** argv ) {
	// batch PROP SEED WORKER NWORKERS SECONDS OUT REPLAY KNOWN MINIMISE_SECONDS [MAXRUNS]
	if ( argc < 11 )
		return 2;
	std::string prop = argv[2];
	u64 seed = strtoull( argv[3], 0, 10 );
	int worker = atoi( argv[4] ), nw = atoi( argv[5] );
	double secs = atof( argv[6] );
	std::string out = argv[7], replay = argv[8];
	auto known = loadKnown( argv[9] );
	double minSecs = atof( argv[10] );
	u64 maxRuns = argc > 11 ? strtoull( argv[11], 0, 10 ) : ~0ull;
	double t0 = wallNow();
	u64 runs = 0, inconcl = 0, nontrivial = 0, callbacks = 0, syscalls = 0, switches = 0, mem = 0,
		preempt = 0, errors = 0, regate = 0, ops = 0;
	double simSec = 0;
	std::map<std::string, u64> fault, probe, faultRuns, knownHits;
	std::unordered_set<u64> sched, cases, nt;
	std::string violation, error;
	std::vector<std::string> samples;
	int rc = 0;
	std::string stopFile = replay + ".stop";
	for ( u64 i = 0; i < maxRuns && wallNow() - t0 < secs; i++ ) {
		u64 idx = (u64)worker + i * nw;
		u64 rs = mixSeed( seed, idx );
		Plan p = generate( prop, rs );
		Result r = runOnce( p );
		runs++;
		ops += p.opCount();
		if ( r.status == "error" ) {
			// the child was lost; try once more before calling it an error of the simulator
			r = runOnce( p );
			if ( r.status == "error" ) {
				errors++;
				std::ofstream( replay + ".error.plan" ) << p.print();
				error = r.msg + " (seed index " + std::to_string( idx ) + ")";
				if ( errors > 3 ) {
					rc = 3;
					break;
				}
				continue;
			}
		}
		if ( r.status == "inconclusive" ) {
			inconcl++;
			probe["inconclusive:" + r.msg]++;
			continue;
		}
		simSec += r.simNs * 1e-9;
		callbacks += r.callbacks;
		syscalls += r.syscalls;
		switches += r.switches;
		preempt += r.preempt;
		mem += r.mem;
		for ( auto& f : r.fault ) {
			fault[f.first] += f.second;
			faultRuns[f.first]++;
		}
		for ( auto& f : r.probe )
			probe[f.first] += f.second;
		sched.insert( r.schedHash );
		Plan shape = p;
		shape.sched = SchedSpec();
		u64 h = hashStr( shape.print() ) ^ ( r.schedHash * 31 );
		cases.insert( h );
		if ( r.probe.count( "decided" ) && nt.insert( h ).second )
			nontrivial++;
		if ( samples.size() < 2 && r.probe.count( "decided" ) && i >= 3 )
			samples.push_back( p.print() );
		// a sample of passing runs is executed twice: the simulator itself is under test
		if ( ( i % 211 == 7 ) && !r.bad() ) {
			Result r2 = runOnce( p );
			regate++;
			if ( !sameRun( r, r2 ) ) {
				error = "nondeterministic run, seed index " + std::to_string( idx );
				std::ofstream( replay + ".error.plan" ) << p.print();
				rc = 3;
				break;
			}
		}
		if ( !r.bad() )
			continue;
		std::string msg = symbolizeMsg( r.msg );
		bool isKnown = false;
		for ( auto& k : known )
			if ( k.prop == prop && k.cls == r.cls && msg.find( k.match ) != std::string::npos ) {
				isKnown = true;
				knownHits[k.cls + " " + k.match]++;
			}
		if ( isKnown )
			continue;
		// gate 1: the same seed again
		Result r2 = runOnce( p );
		if ( !sameRun( r, r2 ) ) {
			error = "violation did not repeat under the same seed: " + r.cls + " / " + r2.status +
					" " + r2.cls;
			std::ofstream( replay + ".error.plan" ) << p.print();
			rc = 3;
			break;
		}
		// gate 2: recorded schedule instead of the random one
		Plan q = p;
		q.sched.replay = true;
		q.sched.dev = r.rec;
		Result r3 = runOnce( q );
		if ( !sameRun( r, r3 ) ) {
			error = "violation did not repeat from the recorded schedule: " + r.cls + " / " +
					r3.status + " " + r3.cls;
			std::ofstream( replay + ".error.plan" ) << p.print();
			rc = 3;
			break;
		}
		Shrinker s;
		s.cls = r.cls;
		s.deadline = wallNow() + minSecs;
		Plan m = p;
		Plan noPre = p;
		noPre.sched.replay = true;
		noPre.sched.dev.clear();
		Result rn = runOnce( noPre );
		bool schedMatters = !( rn.bad() && rn.cls == r.cls );
		if ( !schedMatters )
			m = noPre;
		s.shrink( m, schedMatters );
		if ( schedMatters ) {
			Result rm = runOnce( m );
			if ( rm.bad() && rm.cls == r.cls ) {
				m.sched.replay = true;
				m.sched.dev = rm.rec;
				s.deadline = std::max( s.deadline, wallNow() + minSecs / 3 );
				s.shrinkSchedule( m );
			} else
				m = q;
		}
		Result fin = runOnce( m );
		if ( !( fin.bad() && fin.cls == r.cls ) ) {
			m = q;
			fin = r3;
		}
		m.expect = fin.cls;
		std::ofstream f( replay );
		f << "# property " << prop << ", found with VERIF_SEED=" << seed << " run index " << idx
		  << " (run seed " << rs << ")\n# " << s.runs << " runs spent minimising\n";
		std::istringstream ms( symbolizeMsg( fin.msg ) );
		std::string l;
		while ( std::getline( ms, l ) )
			f << "# " << l << "\n";
		f << "# log-hash " << fin.logHash << "\n";
		f << m.print();
		f.close();
		violation = fin.cls + ": " + symbolizeMsg( fin.msg );
		rc = 1;
		std::ofstream( stopFile ) << worker;
		break;
	}
	double wall = wallNow() - t0;
	std::ofstream o( out );
	o << "{\"runs\":" << runs << ",\"inconclusive\":" << inconcl << ",\"nontrivial\":" << nontrivial
	  << ",\"distinct_cases\":" << cases.size() << ",\"callbacks\":" << callbacks
	  << ",\"syscalls\":" << syscalls << ",\"switches\":" << switches << ",\"preemptions\":" << preempt
	  << ",\"mem\":" << mem << ",\"ops\":" << ops << ",\"regated\":" << regate
	  << ",\"sim_seconds\":" << simSec << ",\"wall\":" << wall << ",\"errors\":" << errors
	  << ",\"error\":" << jstr( error ) << ",\"violation\":" << jstr( violation ) << ",\"fault\":{";
	bool first = true;
	for ( auto& f : fault ) {
		o << ( first ? "" : "," ) << jstr( f.first ) << ":[" << f.second << "," << faultRuns[f.first]
		  << "]";
		first = false;
	}
	o << "},\"probe\":{";
	first = true;
	for ( auto& f : probe ) {
		o << ( first ? "" : "," ) << jstr( f.first ) << ":" << f.second;
		first = false;
	}
	o << "},\"known\":{";
	first = true;
	for ( auto& f : knownHits ) {
		o << ( first ? "" : "," ) << jstr( f.first ) << ":" << f.second;
		first = false;
	}
	o << "},\"samples\":[";
	for ( size_t i = 0; i < samples.size(); i++ )
		o << ( i ? "," : "" ) << jstr( samples[i] );
	o << "],\"sched\":[";
	first = true;
	for ( u64 h : sched ) {
		o << ( first ? "" : "," ) << ( h >> 12 );
		first = false;
	}
	o << "],\"nt\":[";
	first = true;
	for ( u64 h : nt ) {
		o << ( first ? "" : "," ) << ( h >> 12 );
		first = false;
	}
	o << "]}\n";
	return rc;
}

static int modeReplay( int argc, char** argv ) {
	// replay FILE [-v]
	Plan p;
	std::string err;
	std::string text = readFile( argv[2] );
	if ( text.empty() || !Plan::parse( text, p, err ) ) {
		fprintf( stderr, "cannot read plan %s: %s\n", argv[2], err.c_str() );
		return 2;
	}
	bool verbose = argc > 3 && !strcmp( argv[3], "-v" );
	Result r = runOnce( p, verbose );
	Result r2 = runOnce( p );
	printf( "status %s %s\nlog-hash %llu\n%s\n", r.status.c_str(), r.cls.c_str(),
			(unsigned long long)r.logHash, symbolizeMsg( r.msg ).c_str() );
	if ( !sameRun( r, r2 ) ) {
		printf( "NOT REPRODUCIBLE: second execution: %s %s\n", r2.status.c_str(), r2.cls.c_str() );
		return 3;
	}
	if ( !p.expect.empty() && ( !r.bad() || r.cls != p.expect ) ) {
		printf( "expected %s\n", p.expect.c_str() );
		return 4;
	}
	return r.bad() ? 1 : r.status == "ok" ? 0 : 5;
}

static int modeDet( int argc, char** argv ) {
	// det PROP SEED FIRST COUNT : one line per run, to be compared between processes
	std::string prop = argv[2];
	u64 seed = strtoull( argv[3], 0, 10 );
	u64 first = strtoull( argv[4], 0, 10 ), n = strtoull( argv[5], 0, 10 );
	for ( u64 i = first; i < first + n; i++ ) {
		Plan p = generate( prop, mixSeed( seed, i ) );
		Result r = runOnce( p );
		printf( "%llu %s %s %llu %llu %llu %llu\n", (unsigned long long)i, r.status.c_str(),
				r.cls.c_str(), (unsigned long long)r.logHash, (unsigned long long)r.schedHash,
				(unsigned long long)r.logLines, (unsigned long long)r.mem );
	}
	return 0;
}

static int modeSurvey( int argc, char** argv ) {
	// survey PROP SEED WORKER NWORKERS SECONDS : development aid, does not stop at violations
	std::string prop = argv[2];
	u64 seed = strtoull( argv[3], 0, 10 );
	int worker = atoi( argv[4] ), nw = atoi( argv[5] );
	double t0 = wallNow(), secs = atof( argv[6] );
	u64 runs = 0;
	std::map<std::string, u64> probe;
	for ( u64 i = 0; wallNow() - t0 < secs; i++ ) {
		u64 idx = worker + i * nw;
		Plan p = generate( prop, mixSeed( seed, idx ) );
		Result r = runOnce( p );
		runs++;
		for ( auto& x : r.probe )
			probe["probe " + x.first] += x.second;
		for ( auto& x : r.fault )
			probe["fault " + x.first] += x.second;
		if ( r.status == "ok" )
			continue;
		std::string m = r.msg.substr( 0, 300 );
		for ( auto& c : m )
			if ( c == '\n' )
				c = '|';
		printf( "BAD %llu %s %s :: %s\n", (unsigned long long)idx, r.status.c_str(), r.cls.c_str(),
				symbolizeMsg( m ).c_str() );
	}
	printf( "RUNS %llu\n", (unsigned long long)runs );
	for ( auto& x : probe )
		printf( "CNT %s %llu\n", x.first.c_str(), (unsigned long long)x.second );
	return 0;
}
static int modeMin( int argc, char** argv ) {
	// min PROP SEED INDEX SECONDS : minimise one generated case
	Plan p;
	std::string err;
	if ( argc == 4 ) {
		if ( !Plan::parse( readFile( argv[2] ), p, err ) )
			return 2;
	} else
		p = generate( argv[2], mixSeed( strtoull( argv[3], 0, 10 ), strtoull( argv[4], 0, 10 ) ) );
	Result r = runOnce( p );
	if ( !r.bad() ) {
		printf( "no violation: %s %s\n", r.status.c_str(), r.msg.c_str() );
		return 0;
	}
	Shrinker s;
	s.cls = r.cls;
	s.deadline = wallNow() + atof( argv[argc == 4 ? 3 : 5] );
	Plan noPre = p;
	noPre.sched.replay = true;
	noPre.sched.dev.clear();
	Result rn = runOnce( noPre );
	bool sm = !( rn.bad() && rn.cls == r.cls );
	if ( !sm )
		p = noPre;
	s.shrink( p, sm );
	if ( sm ) {
		Result rm = runOnce( p );
		p.sched.replay = true;
		p.sched.dev = rm.rec;
		s.shrinkSchedule( p );
	}
	r = runOnce( p );
	std::string ms = symbolizeMsg( r.msg );
	for ( size_t i = 0; ( i = ms.find( (char)10, i ) ) != std::string::npos; i += 2 )
		ms.replace( i, 1, "\n#" );
	printf( "# %s: %s\n%s", r.cls.c_str(), ms.c_str(), p.print().c_str() );
	return 0;
}

int main( int argc, char** argv ) {
	if ( !( personality( 0xffffffff ) & ADDR_NO_RANDOMIZE ) && !getenv( "SIM_NO_ASLR" ) ) {
		setenv( "SIM_NO_ASLR", "1", 1 );
		personality( personality( 0xffffffff ) | ADDR_NO_RANDOMIZE );
		execv( "/proc/self/exe", argv );
	}
	shm = (char*)mmap( nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
	if ( argc < 2 )
		return 2;
	std::string m = argv[1];
	if ( m == "batch" )
		return modeBatch( argc, argv );
	if ( m == "replay" && argc > 2 )
		return modeReplay( argc, argv );
	if ( m == "survey" && argc > 6 )
		return modeSurvey( argc, argv );
	if ( m == "min" && ( argc == 4 || argc > 5 ) )
		return modeMin( argc, argv );
	if ( m == "det" && argc > 5 )
		return modeDet( argc, argv );
	if ( m == "gen" && argc > 3 ) {
		printf( "%s", generate( argv[2], mixSeed( strtoull( argv[3], 0, 10 ),
												  argc > 4 ? strtoull( argv[4], 0, 10 ) : 0 ) )
						  .print()
						  .c_str() );
		return 0;
	}
	if ( m == "rules" ) {
		for ( auto& p : properties() )
			printf( "%s\t%s\n", p.c_str(), rule( p ).c_str() );
		return 0;
	}
	if ( m == "list" ) {
		for ( auto& p : properties() )
			printf( "%s\n", p.c_str() );
		return 0;
	}
	return 2;
}
