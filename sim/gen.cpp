// Random plans, one family per property. Everything derives from one seed.
#include "plan.h"
#include <algorithm>
#include <functional>
#include <set>

using namespace rt;

namespace {
typedef std::vector<std::string> Args;

std::string S( long v ) { return std::to_string( v ); }

// a rough picture of the file system, so that most generated operations make sense
struct Model {
	std::set<std::string> dirs, files;
	void drop( const std::string& p ) {
		for ( auto* s : { &dirs, &files } ) {
			s->erase( p );
			for ( auto it = s->lower_bound( p + "/" ); it != s->end(); ) {
				if ( it->compare( 0, p.size() + 1, p + "/" ) != 0 )
					break;
				it = s->erase( it );
			}
		}
	}
	void move( const std::string& a, const std::string& b ) {
		std::set<std::string> nd, nf;
		bool isDir = dirs.count( a ), isFile = files.count( a );
		for ( auto& d : dirs )
			if ( d.compare( 0, a.size() + 1, a + "/" ) == 0 )
				nd.insert( b + d.substr( a.size() ) );
		for ( auto& f : files )
			if ( f.compare( 0, a.size() + 1, a + "/" ) == 0 )
				nf.insert( b + f.substr( a.size() ) );
		drop( a );
		drop( b );
		if ( isDir )
			dirs.insert( b );
		if ( isFile )
			files.insert( b );
		dirs.insert( nd.begin(), nd.end() );
		files.insert( nf.begin(), nf.end() );
	}
};

enum {
	F_MKDIR = 1,
	F_RMDIR = 2,
	F_MVDIR = 4,	// rename directories inside one parent
	F_XDIR = 8,		// move directories between parents
	F_XFILE = 16,	// move files between parents
	F_OUT = 32,		// moves across the boundary of the watched tree
	F_SPECIAL = 64, // fifos and symlinks
	F_LINK = 128,	// hard links
	F_HANDLE = 256, // long-lived handles
	F_ALLFS = 511,
};

struct Gen {
	Rng r;
	Plan p;
	Model m;
	std::vector<std::string> roots;	 // watched roots
	std::string outside = "/w/out";
	int names = 4;
	int maxDepth = 3;
	int handleNo = 0;
	bool unreadable = false;  // some directories cannot be read by the process
	bool turbulent = false;	 // directory renames may race with other changes of the same subtree
	std::set<std::string> mvPaths, dirPaths;	// structural changes of the current phase

	int style = 0;	 // what names look like
	std::string xbase = "/w/x";	  // directories that links may lead to

	explicit Gen( u64 seed ) : r( seed ) {
		style = r.chance( 0.55 ) ? 0 : r.range( 1, 3 );
		// something next to the watched directory whose path starts with the same characters
		if ( r.chance( 0.4 ) )
			outside = r.chance( 0.5 ) ? "/w/t.out" : "/w/tt";
		if ( r.chance( 0.4 ) )
			xbase = "/w/tx";
	}

	void sched( bool races ) {
		SchedSpec& s = p.sched;
		s.seed = r.next() >> 1;
		auto pk = [&]( std::vector<double> v ) { return v[r.below( v.size() )]; };
		if ( races ) {
			s.pMem = pk( { 0, 1e-5, 1e-4, 1e-3, 5e-3 } );
			s.pComm = pk( { 0, 0.005, 0.02, 0.1 } );
			s.pSync = pk( { 0, 0.02, 0.1, 0.3, 0.5 } );
		} else {
			s.pMem = pk( { 0, 0, 1e-5, 1e-4 } );
			s.pComm = pk( { 0, 0, 0.01 } );
			s.pSync = pk( { 0, 0.02, 0.1, 0.3 } );
		}
		s.pSys = pk( { 0, 0.05, 0.2, 0.5 } );
		s.pUser = pk( { 0, 0.1, 0.5, 0.9 } );
		s.pPick = pk( { 0, 0.2, 0.5 } );
	}
	void init( Args a ) { p.init.push_back( a ); }
	Phase& phase( const char* checks ) {
		p.phases.emplace_back();
		p.phases.back().checks = splitWs( checks );
		mvPaths.clear();
		dirPaths.clear();
		return p.phases.back();
	}
	void op( const std::string& actor, Args a ) { p.phases.back().ops.push_back( { actor, a } ); }
	int depth( const std::string& d ) {
		int n = 0;
		for ( char c : d )
			n += c == '/';
		return n;
	}
	std::string anyDir( bool inside, bool any = false ) {
		std::vector<std::string> v;
		for ( auto& d : m.dirs ) {
			if ( d == "/w" )
				continue;
			bool out = d == outside || d.compare( 0, outside.size() + 1, outside + "/" ) == 0;
			if ( any || out != inside )
				v.push_back( d );
		}
		return v.empty() ? roots[0] : r.pick( v );
	}
	std::string name( const char* c, int i ) {
		// prefixes of one another; anything but '/' and NUL is allowed; as long as names can be
		static const char* prefix[] = { "0", "00", "", "0.0", "00.0", "0 0" };
		static const char* odd[] = { " 0", "\\", "\xc3\xa9", "\n0", "..", "*\xff" };
		static const char* dots[] = { "...", "..", "." };
		std::string n = c;
		switch ( style ) {
			case 1:
				return n + prefix[i % 6];
			case 2:
				return ( i % 3 == 2 ? dots[i % 9 / 3] : "" ) + n + odd[i % 6];
			case 3:
				return n + std::string( i % 2 ? 250 : 120 + i * 7, c[0] ) + S( i );
		}
		return n + S( i );
	}
	std::string newName() { 
		bool f = r.chance( 0.5 );
		return name( f ? "f" : "g", (int)r.below( names ) ); }
	std::string dirName() { return name( "d", (int)r.below( names ) ); }
	std::string anyFile() {
		if ( m.files.empty() )
			return anyDir( true ) + "/" + newName();
		std::vector<std::string> v( m.files.begin(), m.files.end() );
		return r.pick( v );
	}
	std::string subDir() {	// a directory that is not a root
		std::vector<std::string> v;
		for ( auto& d : m.dirs )
			if ( d != outside && d != "/w" &&
				 std::find( roots.begin(), roots.end(), d ) == roots.end() )
				v.push_back( d );
		return v.empty() ? "" : r.pick( v );
	}
	bool isRoot( const std::string& d ) {
		return d == outside || std::find( roots.begin(), roots.end(), d ) != roots.end();
	}

	static bool overlap( const std::string& a, const std::string& b ) {
		const std::string &s = a.size() < b.size() ? a : b, &l = a.size() < b.size() ? b : a;
		return l.compare( 0, s.size(), s ) == 0 && ( l.size() == s.size() || l[s.size()] == '/' );
	}
	static bool overlapAny( const std::set<std::string>& v, const std::string& p ) {
		for ( auto& x : v )
			if ( overlap( x, p ) )
				return true;
		return false;
	}
	// directory creation and removal may share a phase with each other, but renames and moves of
	// directories only with changes elsewhere, unless the plan is meant to be turbulent
	bool mayChangeDir( const std::string& d ) {
		if ( !turbulent && overlapAny( mvPaths, d ) )
			return false;
		dirPaths.insert( d );
		return true;
	}
	bool mayMoveDir( const std::string& a, const std::string& b ) {
		if ( !turbulent && ( overlapAny( mvPaths, a ) || overlapAny( mvPaths, b ) ||
							 overlapAny( dirPaths, a ) || overlapAny( dirPaths, b ) ) )
			return false;
		mvPaths.insert( a );
		mvPaths.insert( b );
		return true;
	}

	// one random file-system operation
	Args fsOp( int flags ) {
		for ( int tries = 0; tries < 30; tries++ ) {
			int k = (int)r.below( 100 );
			if ( k < 16 ) {
				std::string f = anyDir( true ) + "/" + newName();
				if ( m.dirs.count( f ) )
					continue;
				m.files.insert( f );
				return { r.chance( 0.5 ) ? "touch" : "write", f, S( r.range( 1, 50 ) ) };
			}
			if ( k < 28 ) {
				if ( m.files.empty() )
					continue;
				static const char* w[] = { "append", "write", "trunc" };
				return { w[r.below( 3 )], anyFile(), S( r.range( 0, 60 ) ) };
			}
			if ( k < 40 ) {
				if ( m.files.empty() )
					continue;
				std::string f = anyFile();
				m.files.erase( f );
				return { "unlink", f };
			}
			if ( k < 52 ) {
				if ( m.files.empty() )
					continue;
				std::string f = anyFile();
				std::string d = f.substr( 0, f.rfind( '/' ) );
				std::string t = d + "/" + newName();
				if ( m.dirs.count( t ) )
					continue;
				m.move( f, t );
				return { "mv", f, t };
			}
			if ( k < 60 && ( flags & ( F_XFILE | F_OUT ) ) ) {
				std::string f = r.chance( 0.3 ) && ( flags & F_OUT ) ? outside + "/" + newName()
																	  : anyFile();
				bool out = ( flags & F_OUT ) && r.chance( 0.4 );
				if ( !( flags & F_XFILE ) )
					out = true;
				std::string t = ( out ? outside : anyDir( true ) ) + "/" + newName();
				if ( m.dirs.count( t ) || t == f )
					continue;
				m.move( f, t );
				return { "mv", f, t };
			}
			if ( k < 72 && ( flags & F_MKDIR ) ) {
				std::string d = anyDir( true );
				if ( depth( d ) >= 2 + maxDepth )
					continue;
				std::string n = d + "/" + dirName();
				if ( m.files.count( n ) || !mayChangeDir( n ) )
					continue;
				m.dirs.insert( n );
				if ( unreadable && r.chance( 0.3 ) )
					return closed( n );
				if ( r.chance( 0.2 ) && depth( n ) < 2 + maxDepth ) {
					std::string n2 = n + "/" + dirName();
					m.dirs.insert( n2 );
					return { "mkdirs", n2 };
				}
				return { "mkdir", n };
			}
			if ( k < 78 && ( flags & F_RMDIR ) ) {
				std::string d = subDir();
				if ( d.empty() || !mayChangeDir( d ) )
					continue;
				m.drop( d );
				return { "rmrf", d };
			}
			if ( k < 85 && ( flags & F_MVDIR ) ) {
				std::string d = subDir();
				if ( d.empty() )
					continue;
				std::string t = d.substr( 0, d.rfind( '/' ) ) + "/" + dirName();
				if ( t == d || m.files.count( t ) || !mayMoveDir( d, t ) )
					continue;
				m.move( d, t );
				return { "mv", d, t };
			}
			if ( k < 93 && ( flags & ( F_XDIR | F_OUT ) ) ) {
				std::string d = subDir();
				if ( d.empty() )
					continue;
				bool out = ( flags & F_OUT ) && ( !( flags & F_XDIR ) || r.chance( 0.5 ) );
				if ( out && d.compare( 0, outside.size(), outside ) == 0 )
					out = false;
				std::string base = out ? outside : anyDir( true );
				std::string t = base + "/" + dirName();
				if ( t == d || t.compare( 0, d.size() + 1, d + "/" ) == 0 || m.files.count( t ) ||
					 depth( t ) > 3 + maxDepth || !mayMoveDir( d, t ) )
					continue;
				m.move( d, t );
				return { "mv", d, t };
			}
			if ( k < 96 && ( flags & F_SPECIAL ) ) {
				std::string f = anyDir( true ) + "/s" + S( r.below( names ) );
				if ( m.files.count( f ) )
					continue;
				m.files.insert( f );
				if ( r.chance( 0.5 ) )
					return { "fifo", f };
				return { "symlink", "nowhere", f };
			}
			if ( k < 98 && ( flags & F_LINK ) ) {
				if ( m.files.empty() )
					continue;
				std::string f = anyFile(), t = anyDir( true ) + "/" + newName();
				if ( m.files.count( t ) || m.dirs.count( t ) )
					continue;
				m.files.insert( t );
				return { "link", f, t };
			}
			if ( flags & F_HANDLE ) {
				if ( handleNo && r.chance( 0.7 ) )
					return { r.chance( 0.3 ) ? "fclose" : "fwrite", "h" + S( r.below( handleNo ) ) };
				std::string f = anyDir( true ) + "/" + newName();
				if ( m.dirs.count( f ) )
					continue;
				m.files.insert( f );
				return { "open", "h" + S( handleNo++ ), f };
			}
		}
		return { "touch", roots[0] + "/x" };
	}
	void pause( const std::string& actor ) {
		int k = (int)r.below( 10 );
		if ( k < 5 )
			op( actor, { "usleep", S( r.range( 1, 3000 ) ) } );
		else if ( k < 8 )
			op( actor, { "sleep", S( r.range( 1, 160 ) ) } );
		else
			op( actor, { "waitq" } );
	}
	// a new directory the process can't read: its own one or one of somebody else
	Args closed( const std::string& n ) {
		static const char* mode[] = { "300", "300", "355", "344", "700", "711", "751" };
		int k = (int)r.below( 7 );
		return k < 4 ? Args{ "mkdir", n, mode[k] } : Args{ "mkdir", n, mode[k], "0" };
	}
	void seedTree( int ndirs, int nfiles ) {
		for ( int i = 0; i < ndirs; i++ ) {
			std::string d = anyDir( true );
			if ( depth( d ) >= 2 + maxDepth )
				continue;
			std::string n = d + "/" + dirName();
			if ( m.dirs.insert( n ).second )
				init( unreadable && r.chance( 0.3 ) ? closed( n ) : Args{ "mkdir", n } );
		}
		for ( int i = 0; i < nfiles; i++ ) {
			std::string f = anyDir( false, true ) + "/" + newName();
			if ( m.dirs.count( f ) )
				continue;
			m.files.insert( f );
			init( { "write", f, S( r.range( 0, 30 ) ) } );
		}
	}
	void baseDirs( std::vector<std::string> rs ) {
		roots = rs;
		init( { "mkdir", "/w" } );
		m.dirs.insert( "/w" );
		for ( auto& d : rs ) {
			init( { "mkdirs", d } );
			m.dirs.insert( d );
		}
		init( { "mkdir", outside } );
		m.dirs.insert( outside );
	}
	void burst( const std::string& actor, int n, int flags, double pPause ) {
		for ( int i = 0; i < n; i++ ) {
			if ( ( flags & F_MVDIR ) && r.chance( 0.06 ) ) {
				// a directory is prepared under a temporary name and renamed into place
				std::string d = anyDir( true ), a = d + "/tmp", b = d + "/" + dirName();
				if ( depth( a ) <= 2 + maxDepth && !m.files.count( b ) && mayMoveDir( a, b ) ) {
					m.dirs.insert( a );
					op( actor, { "mkdir", a } );
					if ( r.chance( 0.5 ) ) {
						std::string f = "/" + newName();
						m.files.insert( a + f );
						op( actor, { "write", a + f, S( r.range( 0, 9 ) ) } );
					}
					if ( r.chance( 0.3 ) )
						pause( actor );
					m.move( a, b );
					op( actor, { "mv", a, b } );
					continue;
				}
			}
			op( actor, fsOp( flags ) );
			if ( r.chance( pPause ) )
				pause( actor );
		}
	}
	int randFlags() {
		int f = 0;
		for ( int b = 1; b < 512; b <<= 1 )
			if ( r.chance( 0.6 ) )
				f |= b;
		return f;
	}
	void osVariety() {
		p.cfg["dirseed"] = S( r.range( 1, 1000 ) );
		if ( r.chance( 0.3 ) )
			p.cfg["readdirchunk"] = S( r.range( 1, 3 ) );
		if ( r.chance( 0.3 ) )
			p.cfg["inodereuse"] = "1";
		if ( r.chance( 0.2 ) )
			p.cfg["dirsize"] = "1";
		if ( r.chance( 0.2 ) )
			p.cfg["nodtype"] = "1";
	}
};


// ---------------------------------------------------------------- shared workload pieces
struct Mix {
	const char* checks = "mirror";
	int flags = F_ALLFS;
	int generic = 0;	  // percent of watchers that poll
	int capi = 0;		  // percent of runs through the C interface
	int syn = 25;		  // percent of recursive native watches with synthetic events
	int recursive = 85;
	int maxPhases = 3;
	int burstMax = 10;
	int maxActors = 3;
	bool race = false;
	bool two = true;
	bool uid = false;
};

std::string kindOf( Gen& g, int generic, bool capi, Args& a ) {
	bool gen = (int)g.r.below( 100 ) < generic;
	a.push_back( gen ? "generic" : "native" );
	if ( capi )
		a.push_back( "capi" );
	else if ( gen && g.r.chance( 0.8 ) )
		a.push_back( "poll=" + S( g.r.pick( std::vector<int>{ 20, 50, 100, 250, 1000 } ) ) );
	return gen ? "generic" : "native";
}

// watchers W (and V), watches A on /w/t and B on /w/u
std::vector<Args> setupWatches( Gen& g, const Mix& m ) {
	std::vector<Args> adds;
	g.osVariety();
	bool two = m.two && g.r.chance( 0.4 );
	g.baseDirs( two ? Args{ "/w/t", "/w/u" } : Args{ "/w/t" } );
	g.names = g.r.range( 2, 5 );
	g.maxDepth = g.r.range( 1, 3 );
	if ( m.uid && g.r.chance( 0.2 ) ) {
		g.unreadable = true;
		g.p.cfg["uid"] = "1000";
	}
	g.seedTree( g.r.range( 0, 5 ), g.r.range( 0, 6 ) );
	bool twoW = two && g.r.chance( 0.3 );
	bool capi = (int)g.r.below( 100 ) < m.capi;
	Args nw = { "new", "W" }, nv = { "new", "V" };
	kindOf( g, m.generic, capi, nw );
	kindOf( g, m.generic, capi, nv );
	bool poll = nw[2] == "generic" || ( twoW && nv[2] == "generic" );
	g.init( nw );
	if ( twoW )
		g.init( nv );
	if ( poll && g.r.chance( 0.4 ) ) {
		int d = g.r.pick( std::vector<int>{ 20, 200, 1500 } );
		g.p.cfg["statdelay"] = S( d );
		g.p.cfg["slack_ms"] = S( d * 2 );  // about 2000 calls
	}
	bool watchFirst = g.r.chance( 0.5 );
	auto start = [&] {
		g.init( { "watch", "W" } );
		if ( twoW )
			g.init( { "watch", "V" } );
	};
	if ( watchFirst )
		start();
	bool rec = (int)g.r.below( 100 ) < m.recursive;
	Args a = { "add", "W", "A", "/w/t", "LA", rec ? "r" : "n" };
	if ( rec && (int)g.r.below( 100 ) < m.syn )
		a.push_back( "syn" );
	if ( g.r.chance( 0.3 ) )
		a[3] += "/";
	g.init( a );
	adds.push_back( a );
	if ( two ) {
		bool rec2 = (int)g.r.below( 100 ) < m.recursive;
		Args b = { "add", twoW ? "V" : "W", "B", "/w/u", g.r.chance( 0.5 ) || twoW ? "LB" : "LA",
				   rec2 ? "r" : "n" };
		g.init( b );
		adds.push_back( b );
	}
	if ( !watchFirst )
		start();
	return adds;
}

// the user removes watches and adds them again, maybe in another way
void reregister( Gen& g, const Mix& m, std::vector<Args>& adds ) {
	g.phase( m.checks );
	std::vector<Args> again;
	for ( auto& a : adds )
		if ( g.r.chance( 0.6 ) ) {
			g.op( "U1", { g.r.chance( 0.5 ) ? "rm" : "rmpath", a[1], a[2] } );
			if ( g.r.chance( 0.3 ) )
				g.pause( "U1" );
			if ( g.r.chance( 0.3 ) )
				a[5] = a[5] == "r" && m.recursive < 100 ? "n" : "r";
			if ( a[5] == "n" && a.back() == "syn" )
				a.pop_back();
			again.push_back( a );
		}
	if ( again.size() > 1 && g.r.chance( 0.5 ) )
		std::swap( again[0], again[1] );
	for ( auto& a : again )
		if ( g.r.chance( 0.9 ) )
			g.op( "U1", a );
		else
			g.op( "U1", { "sleep", S( g.r.range( 1, 400 ) ) } );
}

Plan genMix( Gen& g, const Mix& m ) {
	std::vector<Args> adds = setupWatches( g, m );
	int phases = g.r.range( 1, m.maxPhases );
	for ( int k = 0; k < phases; k++ ) {
		if ( k && g.r.chance( 0.25 ) )
			reregister( g, m, adds );
		g.phase( m.checks );
		int actors = g.r.range( 1, m.maxActors );
		double pp = g.r.chance( 0.5 ) ? 0.4 : g.r.chance( 0.5 ) ? 0.1 : 0;
		for ( int a = 0; a < actors; a++ )
			g.burst( "F" + S( a ), g.r.range( 1, m.burstMax ), m.flags, pp );
	}
	if ( m.race )
		g.p.cfg["race"] = "1";
	g.sched( m.race );
	return g.p;
}

// a phase with one single change
void onePhase( Gen& g, const char* checks, int flags ) {
	g.phase( checks );
	g.op( "F0", g.fsOp( flags ) );
}

// ---------------------------------------------------------------- the properties
Plan c01( Gen& g ) {
	Mix m;
	m.checks = "mirror modified";
	m.uid = true;
	m.flags = g.randFlags();
	return genMix( g, m );
}
Plan c02( Gen& g ) {
	Mix m;
	m.checks = "exact";
	m.flags = g.randFlags() | F_HANDLE;
	m.burstMax = 16;
	return genMix( g, m );
}
Plan c03( Gen& g ) {
	Mix m;
	m.checks = "probe watches";
	m.uid = true;
	m.flags = ( g.randFlags() | F_MKDIR ) & ~F_HANDLE;
	m.recursive = 92;
	return genMix( g, m );
}
Plan c04( Gen& g ) {
	Mix m;
	m.checks = "exact mirror probe";
	m.flags = F_MKDIR | F_MVDIR | F_XFILE | F_XDIR | F_OUT | ( g.r.chance( 0.5 ) ? F_RMDIR : 0 ) |
			  ( g.r.chance( 0.3 ) ? F_LINK : 0 );
	m.recursive = 90;
	m.burstMax = 7;
	return genMix( g, m );
}

// several watchers and watches over disjoint trees that contain the same names
Plan c05( Gen& g ) {
	g.osVariety();
	int nroots = g.r.range( 2, 4 );
	Args roots;
	static const char* rn[] = { "/w/t", "/w/tt", "/w/t2", "/w/u" };
	for ( int i = 0; i < nroots; i++ )
		roots.push_back( rn[i] );
	g.baseDirs( roots );
	g.names = g.r.range( 2, 3 );
	g.maxDepth = 2;
	g.seedTree( g.r.range( 1, 6 ), g.r.range( 0, 6 ) );
	int nw = g.r.range( 1, 3 );
	bool capi = g.r.chance( 0.25 );
	Args names = { "W", "V", "X" };
	for ( int i = 0; i < nw; i++ ) {
		Args a = { "new", names[i] };
		kindOf( g, 30, capi, a );
		g.init( a );
		g.init( { "watch", names[i] } );
	}
	for ( int i = 0; i < nroots; i++ ) {
		int w = (int)g.r.below( nw );
		std::string path = roots[i];
		if ( g.r.chance( 0.3 ) )
			path += "/";
		else if ( g.r.chance( 0.2 ) )
			path = path.substr( 1 );  // relative to the working directory /
		Args a = { "add", names[w], "S" + S( i ), path,
				   g.r.chance( 0.25 ) ? "LS" : "L" + names[w] + S( g.r.below( 2 ) ),
				   g.r.chance( 0.6 ) ? "r" : "n" };
		g.init( a );
	}
	int phases = g.r.range( 1, 3 );
	for ( int k = 0; k < phases; k++ ) {
		g.phase( "mirror probe registry watches" );
		for ( int a = 0; a < g.r.range( 1, 3 ); a++ )
			g.burst( "F" + S( a ), g.r.range( 1, 8 ), g.randFlags() & ~F_HANDLE, 0.2 );
		if ( g.r.chance( 0.3 ) ) {
			int i = (int)g.r.below( nroots );
			g.op( "U0", { g.r.chance( 0.5 ) ? "rm" : "rmpath",
						  "W", "S" + S( i ) } );
			for ( auto& in : g.p.init )
				if ( in[0] == "add" && in[2] == "S" + S( i ) )
					g.p.phases.back().ops.back().a[1] = in[1];
		}
	}
	g.sched( false );
	return g.p;
}

// watches come and go while their trees change
void churn( Gen& g, const std::string& actor, int n, const Args& slots, const std::string& w,
			double pReadd ) {
	for ( int i = 0; i < n; i++ ) {
		std::string s = g.r.pick( slots );
		if ( g.r.chance( 0.5 ) )
			g.pause( actor );
		if ( g.r.chance( pReadd ) ) {
			for ( auto& in : g.p.init )
				if ( in[0] == "add" && in[2] == s ) {
					g.op( actor, in );
					break;
				}
		} else if ( g.r.chance( 0.15 ) )
			g.op( actor, { "dirs", w } );
		else
			g.op( actor, { g.r.chance( 0.5 ) ? "rm" : "rmpath", w, s } );
	}
}

Plan c06( Gen& g ) {
	g.osVariety();
	g.baseDirs( { "/w/t", "/w/u", "/w/v" } );
	g.names = g.r.range( 2, 3 );
	g.maxDepth = g.r.range( 1, 3 );
	g.seedTree( g.r.range( 0, 5 ), g.r.range( 0, 4 ) );
	bool capi = g.r.chance( 0.2 );
	Args a = { "new", "W" };
	std::string kind = kindOf( g, 30, capi, a );
	g.init( a );
	bool late = g.r.chance( 0.2 );
	if ( !late )
		g.init( { "watch", "W" } );
	const char* roots[] = { "/w/t", "/w/u", "/w/v" };
	for ( int i = 0; i < 3; i++ )
		g.init( { "add", "W", "S" + S( i ), roots[i], g.r.chance( 0.5 ) ? "LA" : "L" + S( i ),
				  g.r.chance( 0.75 ) ? "r" : "n" } );
	if ( late ) {
		if ( g.r.chance( 0.6 ) ) {	// removed before anything was started
			Args add = g.p.init[g.p.init.size() - 1 - g.r.below( 3 )];
			g.init( { g.r.chance( 0.5 ) ? "rm" : "rmpath", "W", add[2] } );
			if ( g.r.chance( 0.4 ) )
				g.init( add );
		}
		g.init( { "watch", "W" } );
	}
	int phases = g.r.range( 1, 3 );
	for ( int k = 0; k < phases; k++ ) {
		g.phase( "mirror probe registry watches" );
		// no directory is renamed while a watch that contains it is being added
		bool adds = g.r.chance( 0.6 );
		int flags = g.randFlags() & ~F_HANDLE;
		if ( adds )
			flags &= ~( F_MVDIR | F_XDIR | F_OUT );
		for ( int x = 0; x < g.r.range( 1, 2 ); x++ )
			g.burst( "F" + S( x ), g.r.range( 2, 10 ), flags, 0.3 );
		int users = g.r.range( 1, 2 );
		for ( int x = 0; x < users; x++ )
			churn( g, "U" + S( x ), g.r.range( 1, 3 ), { "S" + S( x ) }, "W", adds ? 0.4 : 0 );
		// what is removed is none of the watches that were added
		if ( ( users == 1 || !adds ) && g.r.chance( 0.4 ) )
			for ( int n = g.r.range( 1, 5 ); n > 0; n-- ) {
				std::string what;
				switch ( g.r.below( 6 ) ) {
					case 0:
						what = g.r.pick( Args{ "0", "-1", "-7", "1000000", "2147483647" } );
						break;
					case 1:
					case 2:
						what = S( g.r.range( 1, 12 ) );
						break;
					case 3:
						what = g.r.pick( Args{ "/", "/w", "/w/", "/w/missing", "@empty", "t", "/w/t/.." } );
						break;
					default:
						what = g.anyDir( true ) + ( g.r.chance( 0.5 ) ? "/" : "" );
				}
				g.op( "U0", { "rmraw", "W", what } );
				if ( g.r.chance( 0.3 ) )
					g.pause( "U0" );
			}
		// a slow listener, so that removal often meets a running callback
		if ( g.r.chance( 0.5 ) )
			g.p.cbs.push_back( { g.r.chance( 0.5 ) ? "LA" : "L0", g.r.range( 1, 8 ),
								 { "usleep", S( g.r.range( 1, 3000 ) ) } } );
	}
	g.sched( true );
	return g.p;
}

// watchers are created, used and destroyed again and again in the same way: nothing accumulates
Plan lifeCycles( Gen& g, bool capi ) {
	g.osVariety();
	g.baseDirs( { "/w/t", "/w/u", "/w/v" } );
	g.names = 2;
	g.maxDepth = 2;
	g.seedTree( g.r.range( 0, 4 ), g.r.range( 0, 4 ) );
	const char* roots[] = { "/w/t", "/w/u", "/w/v" };
	if ( g.r.chance( 0.5 ) ) {	// one that stays
		g.init( capi ? Args{ "new", "W", "native", "capi" } : Args{ "new", "W", "native" } );
		g.init( { "watch", "W" } );
		g.init( { "add", "W", "A", roots[g.r.below( 3 )], "LA", "r" } );
	}
	std::vector<Args> body;
	int n = g.r.range( 1, 2 );
	Args names = { "T0", "T1" };
	for ( int i = 0; i < n; i++ ) {
		Args a = { "new", names[i] };
		kindOf( g, 40, capi, a );
		body.push_back( a );
	}
	for ( int i = 0; i < n; i++ ) {
		bool started = false;
		for ( int k = g.r.range( 1, 3 ); k > 0; k-- ) {
			Args a = { "add", names[i], names[i] + S( k ), roots[k - 1],
					   "L" + names[i] + S( g.r.below( 3 ) ), g.r.chance( 0.7 ) ? "r" : "n" };
			if ( capi && g.r.chance( 0.4 ) )
				a.push_back( "fn2" );
			if ( capi && g.r.chance( 0.3 ) )
				a.push_back( "opts" );
			if ( capi && g.r.chance( 0.3 ) )
				a.push_back( "nomiss" );
			if ( !started && g.r.chance( 0.4 ) ) {
				started = true;
				body.push_back( { "watch", names[i] } );
			}
			body.push_back( a );
			if ( g.r.chance( 0.3 ) )
				body.push_back( { "rm", names[i], a[2] } );
		}
		if ( !started && g.r.chance( 0.6 ) )
			body.push_back( { "watch", names[i] } );
	}
	if ( g.r.chance( 0.6 ) )
		body.push_back( { "touch", std::string( roots[g.r.below( 3 )] ) + "/x" } );
	if ( g.r.chance( 0.5 ) )
		body.push_back( { "sleep", S( g.r.range( 1, 300 ) ) } );
	if ( n == 2 && g.r.chance( 0.5 ) )
		std::swap( names[0], names[1] );
	for ( int i = 0; i < n; i++ )
		body.push_back( { "del", names[i] } );
	for ( int k = g.r.range( 7, 9 ); k > 0; k-- ) {
		g.phase( "grow" );
		for ( auto& o : body )
			g.op( "U0", o );
	}
	g.sched( false );
	return g.p;
}

Plan c07( Gen& g ) {
	if ( g.r.chance( 0.12 ) ) {
		g.p.cfg["teardowndecides"] = "1";
		return lifeCycles( g, g.r.chance( 0.6 ) );
	}
	g.p.cfg["teardowndecides"] = "1";
	g.turbulent = true;
	g.osVariety();
	g.baseDirs( { "/w/t", "/w/u" } );
	g.names = 3;
	g.maxDepth = g.r.range( 1, 3 );
	g.seedTree( g.r.range( 0, 6 ), g.r.range( 0, 4 ) );
	int nw = g.r.range( 1, 3 );
	Args names = { "W", "V", "X" };
	bool capi = g.r.chance( 0.3 );
	for ( int i = 0; i < nw; i++ ) {
		Args a = { "new", names[i] };
		kindOf( g, 40, capi, a );
		g.init( a );
		if ( g.r.chance( 0.7 ) )
			g.init( { "watch", names[i] } );
		int n = g.r.range( 0, 2 );
		const char* roots[] = { "/w/t", "/w/u" };
		for ( int k = 0; k < n; k++ )
			g.init( { "add", names[i], names[i] + S( k ), roots[k], "L" + names[i],
					  g.r.chance( 0.8 ) ? "r" : "n" } );
		if ( g.r.chance( 0.4 ) )
			g.p.cbs.push_back( { "L" + names[i], g.r.range( 1, 5 ),
								 g.r.chance( 0.5 ) ? Args{ "usleep", S( g.r.range( 1, 20000 ) ) }
								 : g.r.chance( 0.5 ) ? Args{ "dirs", names[i] }
													 : Args{ "rm", names[i], names[i] + "0" } } );
	}
	int phases = g.r.range( 1, 2 );
	for ( int k = 0; k < phases; k++ ) {
		g.phase( g.r.chance( 0.3 ) ? "nosettle" : "" );
		for ( int x = 0; x < g.r.range( 1, 2 ); x++ )
			g.burst( "F" + S( x ), g.r.range( 1, 12 ), g.randFlags(), 0.3 );
		int i = (int)g.r.below( nw );
		std::string u = g.r.chance( 0.5 ) ? "U0" : "U1";
		if ( g.r.chance( 0.3 ) )
			g.op( u, { "watch", names[i] } );
		if ( g.r.chance( 0.6 ) )
			g.pause( u );
		if ( g.r.chance( 0.8 ) )
			g.op( u, { "del", names[i] } );
		if ( g.r.chance( 0.4 ) ) {
			// and another one is born
			Args a = { "new", "N" + S( k ) };
			kindOf( g, 40, capi, a );
			g.op( u, a );
			g.op( u, { "add", "N" + S( k ), "NS" + S( k ), "/w/t", "LN" + S( k ), "r" } );
			g.op( u, { "watch", "N" + S( k ) } );
		}
	}
	g.sched( g.r.chance( 0.5 ) );
	return g.p;
}

// everything at once from many threads, with the race detector
Plan c08( Gen& g ) {
	g.p.cfg["teardowndecides"] = "1";
	g.turbulent = true;
	g.osVariety();
	g.baseDirs( { "/w/t", "/w/u" } );
	g.names = g.r.range( 2, 4 );
	g.maxDepth = g.r.range( 1, 3 );
	g.seedTree( g.r.range( 0, 5 ), g.r.range( 0, 4 ) );
	/// Directories on FUSE mounts are looked up in the list of mounts
	if ( g.r.chance( 0.15 ) ) {
		g.init( { "mount", "/", "/dev/root" } );
		for ( const char* d : { "/w/t", "/w/u" } ) {
			g.init( { "setfs", d, "65735546", "new" } );
			if ( g.r.chance( 0.8 ) )
				g.init( { "mount", d, "/dev/sdb1" } );
		}
	}
	bool capi = g.r.chance( 0.3 );
	Args a = { "new", "W" };
	kindOf( g, 40, capi, a );
	if ( a[2] == "native" && g.r.chance( 0.3 ) )
		g.p.cfg["maxqueued"] = S( g.r.range( 3, 12 ) );
	g.init( a );
	bool second = g.r.chance( 0.4 );
	if ( second ) {
		Args b = { "new", "V" };
		kindOf( g, 40, capi, b );
		g.init( b );
		if ( g.r.chance( 0.5 ) )
			g.init( { "watch", "V" } );
	}
	if ( g.r.chance( 0.6 ) )
		g.init( { "watch", "W" } );
	const char* paths[] = { "/w/t", "/w/u", "/w/t/d0", "/w/t/d1" };
	int nslots = g.r.range( 1, 4 );
	auto addOp = [&]( int i ) {
		Args x = { "add", second && i == 1 ? "V" : "W", "S" + S( i ), paths[i],
				   second && i == 1 ? "LV" : i % 2 ? "LA" : "LB", g.r.chance( 0.8 ) ? "r" : "n" };
		if ( g.r.chance( 0.3 ) )
			x.push_back( "syn" );
		return x;
	};
	for ( int i = 0; i < nslots; i++ )
		if ( g.r.chance( 0.7 ) )
			g.init( addOp( i ) );
	/// Options of the watcher are read and written as well
	bool options = g.r.chance( 0.2 );
	if ( options )
		for ( int n = g.r.range( 1, 3 ); n > 0; n-- )
			g.init( { "symlink", g.r.pick( Args{ "/w/u", "/w/t/d0", "d1", "/w/t" } ),
					  g.anyDir( true ) + "/ol" + S( n ) } );
	int phases = g.r.range( 1, 2 );
	for ( int k = 0; k < phases; k++ ) {
		g.phase( "" );
		if ( options )
			for ( int n = g.r.range( 1, 4 ); n > 0; n-- ) {
				std::string u = "U" + S( g.r.below( 3 ) );
				if ( g.r.chance( 0.3 ) )
					g.op( "FO", { "symlink", g.r.pick( Args{ "/w/u", "/w/t/d0", "d1" } ),
								  g.anyDir( true ) + "/om" + S( n ) } );
				g.op( u, { g.r.chance( 0.6 ) ? "follow" : "oos", "W", S( g.r.below( 2 ) ) } );
			}
		for ( int x = 0; x < g.r.range( 1, 2 ); x++ )
			g.burst( "F" + S( x ), g.r.range( 2, 10 ), g.randFlags(), 0.2 );
		int users = g.r.range( 1, 3 );
		for ( int x = 0; x < users; x++ )
			for ( int n = g.r.range( 1, 5 ); n > 0; n-- ) {
				std::string u = "U" + S( x );
				int i = (int)g.r.below( nslots );
				std::string w = second && i == 1 ? "V" : "W";
				switch ( g.r.below( 9 ) ) {
					case 0:
					case 1:
						g.op( u, addOp( i ) );
						break;
					case 2:
						g.op( u, { "rm", w, "S" + S( i ) } );
						break;
					case 3:
						g.op( u, { "rmpath", w, "S" + S( i ) } );
						break;
					case 4:
						g.op( u, { "dirs", w } );
						break;
					case 5:
						g.op( u, { "watch", w } );
						break;
					case 6:
						g.op( u, { "lasterr", capi ? "c" : "x" } );
						break;
					case 7:
						if ( g.r.chance( 0.5 ) )
							g.op( u, { "clrerr", capi ? "c" : "x" } );
						else
							g.op( u, { "add", w, "E" + S( x ) + S( n ), "/w/missing", "LE" + w, "r" } );
						break;
					default:
						if ( x && g.r.chance( 0.5 ) ) {
							std::string nn = "T" + S( k ) + S( x );
							Args c = { "new", nn };
							kindOf( g, 40, capi, c );
							g.op( u, c );
							g.op( u, { "add", nn, nn + "s", "/w/u", "L" + nn, "r" } );
							if ( g.r.chance( 0.7 ) )
								g.op( u, { "watch", nn } );
							g.op( u, { "del", nn } );
						} else
							g.pause( u );
				}
			}
		if ( g.r.chance( 0.3 ) )
			g.p.cbs.push_back( { "LA", g.r.range( 1, 6 ), { "usleep", S( g.r.range( 1, 999 ) ) } } );
		if ( g.r.chance( 0.2 ) )
			g.p.cbs.push_back( { "LB", g.r.range( 1, 6 ), { "lasterr", capi ? "c" : "x" } } );
	}
	/// Calls from listeners while other threads call the same watcher
	if ( g.r.chance( 0.4 ) )
		for ( int n = g.r.range( 1, 4 ); n > 0; n-- ) {
			int i = (int)g.r.below( nslots );
			if ( second && i == 1 )
				continue;
			Args o;
			switch ( g.r.below( 6 ) ) {
				case 0:
				case 1:
					o = addOp( i );
					break;
				case 2:
					o = { "rm", "W", "S" + S( i ) };
					break;
				case 3:
					o = { "rmpath", "W", "S" + S( i ) };
					break;
				case 4:
					o = { "dirs", "W" };
					break;
				default:
					o = { "watch", "W" };
			}
			g.p.cbs.push_back( { g.r.chance( 0.5 ) ? "LA" : "LB", g.r.range( 1, 8 ), o } );
		}
	g.p.cfg["race"] = "1";
	g.p.cfg["overlap"] = "1";
	g.sched( true );
	return g.p;
}

Plan c09( Gen& g ) {
	g.osVariety();
	g.baseDirs( { "/w/t", "/w/u", "/w/v" } );
	g.names = g.r.range( 2, 3 );
	g.maxDepth = 2;
	g.seedTree( g.r.range( 0, 4 ), g.r.range( 0, 4 ) );
	/// Calls through the C API from a callback and from another thread at a time
	bool duel = g.r.chance( 0.25 );
	bool capi = g.r.chance( duel ? 0.7 : 0.2 );
	Args a = { "new", "W" };
	kindOf( g, 45, capi, a );
	g.init( a );
	g.init( { "watch", "W" } );
	bool users = duel || g.r.chance( 0.4 );
	if ( users )
		g.init( { "mkdirs", "/x/m" } );
	const char* roots[] = { "/w/t", "/w/u", "/w/v" };
	int live = g.r.range( 1, 3 );
	std::vector<Args> adds;
	for ( int i = 0; i < 3; i++ ) {
		adds.push_back( { "add", "W", "S" + S( i ), roots[i], g.r.chance( 0.7 ) ? "LA" : "L" + S( i ),
						  g.r.chance( 0.8 ) ? "r" : "n" } );
		if ( g.r.chance( 0.25 ) && !capi )
			adds.back().push_back( "syn" );
		if ( i < live )
			g.init( adds.back() );
	}
	int phases = g.r.range( 1, 3 );
	for ( int k = 0; k < phases; k++ ) {
		g.phase( "mirror probe registry linear watches" );
		for ( int x = 0; x < g.r.range( 1, 2 ); x++ )
			g.burst( "F" + S( x ), g.r.range( 1, 8 ), g.randFlags() & ~F_HANDLE, 0.3 );
		/// Another thread uses the same watcher meanwhile
		if ( users )
			for ( int n = g.r.range( 1, duel ? 10 : 5 ); n > 0; n-- )
				switch ( g.r.below( duel ? 5 : 8 ) ) {
					case 0:
					case 1:
					case 2:
						g.op( "U", { "add", "W", "S9", "/x/m", "L9", g.r.chance( 0.5 ) ? "r" : "n" } );
						break;
					case 3:
						g.op( "U", { g.r.chance( 0.5 ) ? "rm" : "rmpath", "W", "S9" } );
						break;
					case 4:
						g.op( "U", { "dirs", "W" } );
						break;
					case 5:
						g.op( "U", { "add", "W", "E" + S( k ) + S( n ), "/x/missing", "LE", "r" } );
						break;
					case 6:
						g.op( "U", { "watch", "W" } );
						break;
					default:
						g.pause( "U" );
				}
	}
	for ( int n = g.r.range( 1, duel ? 8 : 5 ); n > 0; n-- ) {
		int i = (int)g.r.below( 3 );
		Args o;
		switch ( g.r.below( duel ? 6 : 8 ) ) {
			case 0:
			case 1:
				o = { "rm", "W", "S" + S( i ) };
				break;
			case 2:
				o = { "rmpath", "W", "S" + S( i ) };
				break;
			case 3:
			case 4:
				o = adds[i];
				break;
			case 5:
				o = { "dirs", "W" };
				break;
			case 6:
				o = { g.r.chance( 0.5 ) ? "lasterr" : "watch", "W" };
				break;
			default:
				o = { g.r.chance( 0.5 ) ? "write" : "unlink", g.anyDir( true ) + "/" + g.newName() };
		}
		g.p.cbs.push_back( { g.r.chance( 0.7 ) ? "LA" : "L" + S( g.r.below( 3 ) ), g.r.range( 1, 8 ), o } );
	}
	g.sched( g.r.chance( 0.5 ) );
	return g.p;
}

Plan c10( Gen& g ) {
	g.osVariety();
	g.baseDirs( { "/w/t", "/w/u", "/w/v" } );
	g.names = 3;
	g.maxDepth = 2;
	g.seedTree( g.r.range( 0, 5 ), 2 );
	Args a = { "new", "W" };
	kindOf( g, 45, false, a );
	g.init( a );
	if ( g.r.chance( 0.6 ) )
		g.init( { "watch", "W" } );
	const char* roots[] = { "/w/t", "/w/u", "/w/v" };
	int np = g.r.range( 1, 3 );
	int phases = g.r.range( 1, 3 );
	for ( int k = 0; k < phases; k++ ) {
		g.phase( "linear registry" );
		if ( g.r.chance( 0.4 ) )
			g.burst( "F0", g.r.range( 1, 6 ), ( g.randFlags() & ~F_HANDLE ), 0.2 );
		int users = g.r.range( 2, 3 );
		for ( int u = 0; u < users; u++ )
			for ( int n = g.r.range( 1, 5 ); n > 0; n-- ) {
				int i = (int)g.r.below( np );
				std::string s = "S" + S( k ) + S( u ) + S( i );
				switch ( g.r.below( 6 ) ) {
					case 0:
					case 1:
					case 2:
						g.op( "U" + S( u ), { "add", "W", s, std::string( roots[i] ) + ( g.r.chance( 0.3 ) ? "/" : "" ),
											  "L" + S( i ), g.r.chance( 0.6 ) ? "r" : "n" } );
						break;
					case 3:
						g.op( "U" + S( u ), { g.r.chance( 0.5 ) ? "rm" : "rmpath", "W", s } );
						break;
					case 4:
						g.op( "U" + S( u ), { "dirs", "W" } );
						break;
					default:
						g.op( "U" + S( u ), { "usleep", S( g.r.range( 1, 800 ) ) } );
				}
			}
	}
	g.sched( true );
	return g.p;
}


void fault( Gen& g, int phase, const char* call, int nth, const std::string& kind, int count );

// ---- refused watches
Plan c11( Gen& g ) {
	g.p.cfg["refusals"] = "1";
	g.osVariety();
	if ( g.r.chance( 0.7 ) )
		g.p.cfg["uid"] = "1000";
	g.baseDirs( { "/w/t", "/w/u", "/w/v" } );
	g.names = 3;
	g.maxDepth = 2;
	g.seedTree( g.r.range( 0, 4 ), g.r.range( 0, 3 ) );
	for ( const char* d : { "/w/l", "/w/p", "/w/rem", "/w/o", "/w/o/t" } )
		g.init( { "mkdir", d } );
	g.init( { "write", "/w/file", "3" } );
	g.init( { "symlink", "/w/t", "/w/lt" } );			// inside the link's directory
	g.init( { "symlink", "/w/u", "/w/l/lu" } );			// outside
	g.init( { "symlink", "/w/missing", "/w/l/dang" } );
	g.init( { "symlink", "/w/file", "/w/l/lf" } );
	g.init( { "symlink", "loop", "/w/l/loop" } );
	g.init( { "symlink", "/", "/w/l/lr" } );
	g.init( { "symlink", "/w/o", "/w/al" } );			// another name for /w/o
	// "755" of another user is as good as one's own
	static const char* closed[] = { "300", "355", "344", "300" };
	static const char* owners[] = { "1000", "1000", "0" };
	static const char* foreign[] = { "700", "711", "750", "755" };
	auto close = [&] { return g.r.chance( 0.3 ) ? "755" : closed[g.r.below( 4 )]; };
	g.init( { "chmod", "/w/p", close() } );
	if ( g.r.chance( 0.3 ) ) {
		g.init( { "chown", "/w/p", "0" } );
		g.init( { "chmod", "/w/p", foreign[g.r.below( 4 )] } );
	}
	if ( g.r.chance( 0.7 ) )
		g.init( { "setfs", "/w/rem", "6969" } );
	bool capi = g.r.chance( 0.25 );
	Args nw = { "new", "W" };
	kindOf( g, 40, capi, nw );
	g.init( nw );
	bool late = g.r.chance( 0.3 );
	if ( !late )
		g.init( { "watch", "W" } );
	bool few = g.r.chance( 0.15 );
	if ( few )
		g.p.cfg["maxwatches"] = S( g.r.range( 0, 4 ) );
	static const char* paths[] = { "/w/t", "/w/u", "/w/v", "/w/lt", "/w/l/lu", "/w/l/dang", "/w/l/lf",
								   "/w/l/loop", "/w/file", "/w/missing", "/w/gone/x", "/w/p", "/w/rem",
								   "/w/o/t", "/w/al/t", "@empty", "/w/file/x", "w/t", "nowhere", "w/lt", "/", "/w/l/lr" };
	Args all;	// slots on each path
	std::map<std::string, Args> on;
	int no = 0;
	int phases = g.r.range( 1, 3 );
	for ( int k = 0; k < phases; k++ ) {
		g.phase( "registry" );
		g.op( "U0", { "settle" } );
		if ( g.r.chance( 0.4 ) ) {
			static const char* calls[] = { "stat", "lstat", "realpath", "opendir", "readdir", "statfs",
										   "inotify_add_watch", "chdir", "getcwd" };
			static const char* kinds[] = { "ENOMEM", "EACCES", "ENOSPC", "EIO", "ENOENT", "EMFILE" };
			std::string call = calls[g.r.below( 9 )];
			if ( !capi || ( call != "lstat" && call != "realpath" ) )
				fault( g, k, call.c_str(), g.r.range( 1, 20 ), kinds[g.r.below( 6 )], g.r.range( 1, 3 ) );
		}
		for ( int n = g.r.range( 2, 10 ); n > 0; n-- ) {
			int c = (int)g.r.below( 10 );
			if ( c < 6 ) {
				std::string path = paths[g.r.below( 22 )];
				bool root = path == "/" || path == "/w/l/lr";
				if ( g.r.chance( 0.2 ) && path[0] != '@' && path != "/" )
					path += "/";
				std::string s = "S" + S( no++ );
				all.push_back( s );
				on[path.substr( 0, 4 )].push_back( s );
				g.op( "U0", { "add", "W", s, path, "L" + S( g.r.below( 2 ) ),
							  !root && g.r.chance( 0.7 ) ? "r" : "n" } );
			} else if ( c == 6 && !all.empty() )
				g.op( "U0", { g.r.chance( 0.5 ) ? "rm" : "rmpath", "W", g.r.pick( all ) } );
			else if ( c == 7 )
				g.op( "U0", { g.r.chance( 0.5 ) ? "follow" : "oos", "W", S( g.r.below( 2 ) ) } );
			else if ( c == 8 ) {
				g.op( "U0", { g.r.chance( 0.5 ) ? "clrerr" : "lasterr", capi ? "c" : "x" } );
			} else {
				switch ( g.r.below( 7 ) ) {
					case 6: {  // a root that was replaced is still registered
						std::string r = g.r.pick( Args{ "/w/t", "/w/u", "/w/v" } );
						g.op( "U0", { "rmrf", r } );
						if ( g.r.chance( 0.3 ) )
							g.op( "U0", { "settle" } );
						g.op( "U0", { "mkdirs", r } );
						if ( g.r.chance( 0.5 ) ) {
							std::string s = "S" + S( no++ );
							all.push_back( s );
							g.op( "U0", { "settle" } );
							g.op( "U0", { "add", "W", s, r, "L0", g.r.chance( 0.7 ) ? "r" : "n" } );
						}
						break;
					}
					case 0:
						g.op( "U0", { "mkdirs", g.r.chance( 0.5 ) ? "/w/missing/y" : "/w/gone/x/y" } );
						break;
					case 1:
						g.op( "U0", { "rmrf", g.r.chance( 0.5 ) ? "/w/missing" : "/w/gone" } );
						break;
					case 2:
						for ( auto& s : on["/w/p"] )
							g.op( "U0", { "rm", "W", s } );
						if ( g.r.chance( 0.4 ) ) {
							g.op( "U0", { "chown", "/w/p", owners[g.r.below( 3 )] } );
							g.op( "U0", { "chmod", "/w/p", foreign[g.r.below( 4 )] } );
						} else
							g.op( "U0", { "chmod", "/w/p", close() } );
						break;
					case 3:
						g.op( "U0", { "setfs", "/w/rem", g.r.chance( 0.5 ) ? "6969" : "ef53" } );
						break;
					case 4:
						g.op( "U0", { "unlink", "/w/file" } );
						g.op( "U0", { g.r.chance( 0.5 ) ? "mkdirs" : "write", "/w/file", "3" } );
						break;
					default: {
						std::string l = g.r.pick( Args{ "/w/lt", "/w/l/lu", "/w/l/dang" } );
						g.op( "U0", { "unlink", l } );
						g.op( "U0", { "symlink", g.r.pick( Args{ "/w/t", "/w/v", "/w/o/t", "../u", "t" } ), l } );
					}
				}
				g.op( "U0", { "settle" } );
			}
		}
	}
	// the causes are gone: everything can be watched
	g.phase( "registry" );
	if ( late )
		g.op( "U0", { "watch", "W" } );
	for ( auto& s : all )
		g.op( "U0", { "rm", "W", s } );
	g.phase( few ? "registry" : "registry probe watches" );
	g.op( "U0", { "chown", "/w/p", "1000" } );
	g.op( "U0", { "chmod", "/w/p", "755" } );
	g.op( "U0", { "setfs", "/w/rem", "ef53" } );
	g.op( "U0", { "rmrf", "/w/missing" } );
	g.op( "U0", { "mkdirs", "/w/missing/x" } );
	g.op( "U0", { "settle" } );
	for ( const char* d : { "/w/t", "/w/u", "/w/p", "/w/rem", "/w/missing", "/w/o/t" } )
		if ( g.r.chance( 0.5 ) )
			g.op( "U0", { "add", "W", "S" + S( no++ ), d, "L0", "r" } );
	g.sched( false );
	return g.p;
}

// ---- remote file systems, mount points and the working directory
Plan c22( Gen& g ) {
	static const char* remote[] = { "5346414f", "61756673", "c36400",	"ff534d42", "fe534d42", "73757245",
									"19830326", "65735543", "1161970",	"47504653", "6b414653", "bd00bd0",
									"564c",		"6969",		"6e667364", "7461636f", "aad7aaea", "50495045",
									"517b",		"beefdead", "bacbacbc", "a501fcf5" };
	static const char* local[] = { "ef53", "1021994", "9123683e", "58465342", "794c7630", "52654973", "4d44",
								   "2fc12fc1" };
	g.p.cfg["refusals"] = "1";
	g.p.cfg["strictskip"] = "1";
	g.osVariety();
	g.baseDirs( { "/w/t", "/w/u" } );
	g.names = g.r.range( 2, 3 );
	g.maxDepth = 3;
	g.init( { "mkdir", "/w/m" } );
	g.m.dirs.insert( "/w/m" );
	g.init( { "mount", "/", "/dev/root" } );
	// mount points
	Args points = { "/w/m" };
	for ( const char* d : { "/w/t/d0", "/w/u/d1", "/w/t", "/w/t/d1/d0" } )
		if ( g.r.chance( 0.4 ) )
			points.push_back( d );
	for ( auto& d : points ) {
		g.init( { "mkdirs", d } );
		g.m.dirs.insert( d );
		for ( size_t i = 4; ( i = d.find( '/', i + 1 ) ) != std::string::npos; )
			g.m.dirs.insert( d.substr( 0, i ) );
	}
	bool below = g.r.chance( 0.5 );	 // the directories below exist before the mount is seen
	if ( !below )
		g.seedTree( g.r.range( 0, 5 ), g.r.range( 0, 3 ) );
	std::set<std::string> fixed( points.begin(), points.end() );
	auto type = [&]() -> std::string {
		int c = (int)g.r.below( 10 );
		return c < 4 ? remote[g.r.below( 22 )] : c < 8 ? "65735546" : local[g.r.below( 8 )];
	};
	for ( auto& d : points ) {
		std::string t = type();
		g.init( { "setfs", d, t, "new" } );
		if ( g.r.chance( t == "65735546" ? 0.7 : 0.9 ) )
			g.init( { "mount", d, g.r.chance( 0.8 ) ? "/dev/sdb1" : "user@host:/" } );
	}
	if ( below )
		g.seedTree( g.r.range( 0, 5 ), g.r.range( 0, 3 ) );
	if ( g.r.chance( 0.5 ) ) {
		std::string d = g.r.pick( Args{ "/w", "/w/t", "/w/m", g.outside } );
		g.init( { "cd", d } );
	}
	bool capi = g.r.chance( 0.2 );
	bool two = g.r.chance( 0.5 );
	Args nw = { "new", "W" }, nv = { "new", "V" };
	kindOf( g, 15, capi, nw );
	g.init( nw );
	if ( two ) {
		kindOf( g, 15, capi, nv );
		g.init( nv );
		g.init( { "watch", "V" } );
	}
	g.init( { "watch", "W" } );
	static const char* paths[] = { "/w/t", "/w/u", "/w/m", "/w/t/", "/w/m/", "/w/m/missing" };
	int no = 0;
	bool late = false;	// a directory can be missing since a system call failed
	std::vector<int> onMount;
	auto add = [&]( const std::string& u, int path = -1 ) {
		std::string w = two && g.r.chance( 0.5 ) ? "V" : "W";
		if ( path < 0 )
			path = (int)g.r.below( 6 );
		if ( path == 2 || path == 4 )
			onMount.push_back( no );
		g.op( u, { "add", w, "S" + S( no++ ), paths[path], "L" + w, g.r.chance( 0.85 ) ? "r" : "n" } );
	};
	int phases = g.r.range( 1, 3 );
	for ( int k = 0; k < phases; k++ ) {
		// one after the other
		bool faulty = g.r.chance( 0.3 );
		if ( faulty )
			late = true;
		g.phase( late ? "registry" : "registry mirror" );
		if ( faulty ) {
			static const char* calls[] = { "stat", "lstat", "chdir", "getcwd", "statfs", "setmntent", "realpath" };
			static const char* kinds[] = { "ENOMEM", "EACCES", "EIO", "ENOENT" };
			std::string call = calls[g.r.below( 7 )];
			if ( !capi || ( call != "lstat" && call != "realpath" ) )
				fault( g, k * 2, call.c_str(), g.r.range( 1, 12 ), kinds[g.r.below( 4 )], g.r.range( 1, 4 ) );
		}
		if ( g.r.chance( 0.4 ) ) {	// something else is mounted there
			for ( int s : onMount )
				for ( const char* w : { "W", "V" } )
					g.op( "U0", { "rm", w, "S" + S( s ) } );
			onMount.clear();
			g.op( "U0", { "settle" } );
			std::string t = type();
			g.op( "U0", { "setfs", "/w/m", t, "new" } );
			if ( g.r.chance( 0.5 ) )
				g.op( "U0", { "mount", "/w/m", "/dev/sdc1" } );
			g.op( "U0", { "settle" } );
			add( "U0", g.r.chance( 0.5 ) ? 2 : 4 );
		}
		for ( int i = g.r.range( 1, 4 ); i > 0; i-- ) {
			g.op( "U0", { "settle" } );
			add( "U0" );
		}
		// everything at once
		g.phase( late ? "registry" : g.r.chance( 0.5 ) ? "registry mirror probe watches" : "registry mirror" );
		int users = g.r.range( 0, 2 );
		for ( int u = 0; u < users; u++ )
			for ( int i = g.r.range( 1, 3 ); i > 0; i-- )
				if ( g.r.chance( 0.6 ) || !no )
					add( "U" + S( u ) );
				else {
					int s = g.r.range( 0, no - 1 );
					for ( const char* w : { "W", "V" } )
						g.op( "U" + S( u ), { "rm", w, "S" + S( s ) } );
				}
		for ( int x = g.r.range( 1, 2 ); x > 0; x-- )
			g.burst( "F" + S( x ), g.r.range( 1, 8 ), F_MKDIR | F_XFILE | F_RMDIR, 0.3 );
	}
	g.sched( false );
	return g.p;
}

// ---- queue overflow
Plan c12( Gen& g ) {
	g.osVariety();
	bool two = g.r.chance( 0.5 );
	g.baseDirs( two ? Args{ "/w/t", "/w/u" } : Args{ "/w/t" } );
	g.names = g.r.range( 2, 5 );
	g.maxDepth = 2;
	g.seedTree( g.r.range( 0, 4 ), g.r.range( 0, 6 ) );
	bool capi = g.r.chance( 0.35 );
	bool twoW = two && g.r.chance( 0.4 );
	bool forced = g.r.chance( 0.35 );
	if ( !forced )
		g.p.cfg["maxqueued"] = S( g.r.pick( std::vector<int>{ 1, 2, 3, 5, 8, 16 } ) );
	Args nw = { "new", "W", "native" }, nv = { "new", "V", "native" };
	if ( capi ) {
		nw.push_back( "capi" );
		nv.push_back( "capi" );
	}
	g.init( nw );
	if ( twoW )
		g.init( nv );
	auto addA = [&]( int i ) {
		Args a = { "add", i && twoW ? "V" : "W", "S" + S( i ), i ? "/w/u" : "/w/t",
				   i && twoW ? "LV" : g.r.chance( 0.5 ) ? "LA" : "LB", g.r.chance( 0.8 ) ? "r" : "n" };
		if ( capi && g.r.chance( 0.3 ) )
			a.push_back( "fn2" );
		if ( capi && g.r.chance( 0.2 ) )
			a.push_back( "nomiss" );
		return a;
	};
	bool early = g.r.chance( 0.5 );
	if ( early )
		g.init( { "watch", "W" } );
	for ( int i = 0; i < ( two ? 2 : 1 ); i++ )
		g.init( addA( i ) );
	if ( !early )
		g.init( { "watch", "W" } );
	if ( twoW )
		g.init( { "watch", "V" } );
	// listeners that take their time
	for ( int i = g.r.range( 0, 4 ); i > 0; i-- )
		g.p.cbs.push_back( { g.r.pick( std::vector<std::string>{ "LA", "LB", "LV" } ),
							 g.r.range( 1, 12 ),
							 g.r.chance( 0.8 ) ? Args{ "usleep", S( g.r.range( 1, 20000 ) ) }
							 : g.r.chance( 0.5 ) ? Args{ "rm", "W", "S0" }
												 : Args{ "touch", "/w/t/cb" } } );
	int files = F_XFILE | F_OUT | F_SPECIAL | F_LINK | F_HANDLE;
	files &= ~F_OUT;
	int phases = g.r.range( 1, 4 );
	for ( int k = 0; k < phases; k++ ) {
		bool last = k == phases - 1;
		bool wild = last && g.r.chance( 0.4 );	// directories may get lost for good
		g.phase( wild ? "missed registry" : "missed mirror modified exact probe registry" );
		int fl = wild ? F_ALLFS : forced && g.r.chance( 0.3 ) ? F_ALLFS & ~F_HANDLE : files;
		bool safe = forced && ( fl & F_MKDIR ) && !wild;
		int actors = g.r.range( 1, 3 );
		for ( int a = 0; a < actors; a++ )
			g.burst( "F" + S( a ), g.r.range( 1, 14 ), fl, g.r.chance( 0.7 ) ? 0.05 : 0.4 );
		if ( forced && !safe && g.r.chance( 0.8 ) )
			for ( int n = g.r.range( 1, 2 ); n > 0; n-- ) {
				g.pause( "K" );
				g.op( "K", { "overflow" } );
			}
		if ( g.r.chance( 0.25 ) ) {
			g.pause( "U1" );
			g.op( "U1", { g.r.chance( 0.5 ) ? "rm" : "rmpath", "W", "S0" } );
			if ( g.r.chance( 0.6 ) ) {
				g.pause( "U1" );
				g.op( "U1", addA( 0 ) );
			}
		}
	}
	g.sched( g.r.chance( 0.5 ) );
	return g.p;
}

const char* initErr( Gen& g ) {
	static const char* e[] = { "EMFILE", "ENFILE", "ENOMEM", "ENOSYS" };
	return e[g.r.below( 4 )];
}
void fault( Gen& g, int phase, const char* call, int nth, const std::string& kind, int count ) {
	kern::Fault f;
	f.phase = phase;
	f.call = call;
	f.nth = nth;
	f.kind = kind;
	f.count = count;
	g.p.faults.push_back( f );
}

// ---- the native backend cannot be initialised
Plan c13( Gen& g ) {
	g.osVariety();
	g.baseDirs( { "/w/t", "/w/u" } );
	g.names = g.r.range( 2, 4 );
	g.maxDepth = g.r.range( 1, 3 );
	g.seedTree( g.r.range( 0, 5 ), g.r.range( 0, 6 ) );
	bool capi = g.r.chance( 0.3 );
	int nth = g.r.range( 1, 3 ), count = g.r.range( 1, 2 );
	fault( g, -1, "inotify_init", nth, initErr( g ), count );
	int n = g.r.range( 1, 3 );
	Args names = { "W", "V", "X" };
	auto make = [&]( const std::string& w, const std::string& actor ) {
		Args a = { "new", w, g.r.chance( 0.9 ) ? "native" : "generic" };
		if ( capi )
			a.push_back( "capi" );
		else if ( g.r.chance( 0.5 ) )
			a.push_back( "poll=" + S( g.r.pick( std::vector<int>{ 20, 50, 100, 250, 500, 1000 } ) ) );
		Args b = { "add", w, "S" + w, g.r.chance( 0.5 ) ? "/w/t" : "/w/u", "L" + w,
				   g.r.chance( 0.8 ) ? "r" : "n" };
		if ( g.r.chance( 0.3 ) )
			b.push_back( "syn" );
		bool early = g.r.chance( 0.5 );
		std::vector<Args> ops = { a };
		if ( early )
			ops.push_back( { "watch", w } );
		ops.push_back( b );
		if ( !early )
			ops.push_back( { "watch", w } );
		for ( auto& o : ops )
			actor.empty() ? g.init( o ) : g.op( actor, o );
	};
	for ( int i = 0; i < n; i++ )
		make( names[i], "" );
	int phases = g.r.range( 1, 3 );
	for ( int k = 0; k < phases; k++ ) {
		g.phase( "mirror once latency probe registry" );
		int actors = g.r.range( 1, 2 );
		int flags = g.randFlags() & ~F_HANDLE;
		bool births = g.r.chance( 0.4 );
		if ( births )	// no directory is renamed while a watch that contains it is being added
			flags &= ~( F_MVDIR | F_XDIR | F_OUT );
		for ( int a = 0; a < actors; a++ )
			g.burst( "F" + S( a ), g.r.range( 1, 8 ), flags, 0.3 );
		if ( births ) {
			g.pause( "U1" );
			if ( g.r.chance( 0.5 ) )
				g.op( "U1", { "del", names[g.r.below( n )] } );
			make( "N" + S( k ), "U1" );
		}
	}
	g.sched( false );
	return g.p;
}

// ---- failing system calls
void troubles( Gen& g, int phase, int n ) {
	struct Kind {
		const char* call;
		std::vector<const char*> kinds;
		int weight;
	};
	static const std::vector<Kind> kinds = {
		{ "select", { "EINTR", "EAGAIN", "ENOMEM" }, 3 },
		{ "read", { "EINTR", "EAGAIN", "EIO" }, 3 },
		{ "inotify_add_watch", { "ENOSPC", "ENOMEM", "EACCES", "ENOENT" }, 5 },
		{ "inotify_rm_watch", { "EINVAL" }, 2 },
		{ "stat", { "EACCES", "EIO", "ENOMEM", "ENOENT", "ELOOP", "ESTALE", "EINTR" }, 6 },
		{ "opendir", { "EMFILE", "ENFILE", "ENOMEM", "EACCES", "EIO", "ENOENT" }, 4 },
		{ "readdir", { "EIO", "ENOENT", "EINTR" }, 3 },
		{ "statfs", { "EIO", "ENOMEM", "EINTR", "ENOSYS" }, 1 },
		{ "nanosleep", { "EINTR" }, 1 },
	};
	int total = 0;
	for ( auto& k : kinds )
		total += k.weight;
	for ( ; n > 0; n-- ) {
		int w = g.r.below( total );
		for ( auto& k : kinds ) {
			if ( ( w -= k.weight ) >= 0 )
				continue;
			bool wait = &k - &kinds[0] < 2;
			fault( g, phase, k.call, g.r.range( 1, g.r.chance( 0.5 ) ? 4 : 30 ),
				   g.r.chance( 0.1 ) ? "DELAY" + S( g.r.pick( std::vector<int>{ 1, 20, 150 } ) )
									 : g.r.pick( k.kinds ),
				   g.r.chance( 0.6 ) ? 1 : g.r.range( 2, wait ? 30 : 6 ) );
			break;
		}
	}
}
Plan c14( Gen& g ) {
	Mix m;
	m.generic = 40;
	m.capi = 10;
	m.syn = 40;
	m.recursive = 92;
	m.flags = g.randFlags() & ~F_HANDLE;
	setupWatches( g, m );
	if ( g.r.chance( 0.3 ) )
		troubles( g, -1, g.r.range( 1, 2 ) );
	if ( g.r.chance( 0.15 ) )
		g.p.cfg["maxwatches"] = S( g.r.range( 1, 8 ) );
	bool late = g.r.chance( 0.25 );
	if ( late )
		fault( g, -1, "pthread_create", g.r.range( 1, 2 ), "EAGAIN", g.r.range( 1, 2 ) );
	// what a polling watcher could not see when it started it reports later
	bool unseen = false;
	for ( auto& f : g.p.faults )
		unseen |= f.call != "pthread_create";
	int phases = g.r.range( 1, 3 ) + unseen;
	for ( int k = 0; k < phases; k++ ) {
		g.phase( "mirror exact probe" );
		int actors = k == 0 && unseen ? 0 : g.r.range( 1, 3 );
		double pp = g.r.chance( 0.5 ) ? 0.4 : g.r.chance( 0.5 ) ? 0.1 : 0;
		for ( int a = 0; a < actors; a++ )
			g.burst( "F" + S( a ), g.r.range( 1, 9 ), m.flags, pp );
		if ( late && k == 0 )
			for ( const Args& i : std::vector<Args>( g.p.init ) )
				if ( i[0] == "watch" )
					for ( int n = 0; n < 3; n++ ) {
						g.pause( "U1" );
						g.op( "U1", i );
					}
		if ( g.r.chance( 0.8 ) )
			troubles( g, k, g.r.range( 1, 4 ) );
	}
	g.sched( false );
	return g.p;
}

// ---- polling
void rootTrouble( Gen& g, const std::string& actor, const std::string& root, bool mounts = false ) {
	if ( g.r.chance( 0.6 ) )
		g.pause( actor );
	if ( mounts && g.r.chance( 0.15 ) ) {
		// file systems are mounted over the root, or unmounted
		bool on = g.r.chance( 0.5 );
		g.op( actor, { on ? "over" : "umount", root } );
		if ( g.r.chance( 0.5 ) )
			g.pause( actor );
		if ( g.r.chance( 0.7 ) ) {
			g.op( actor, { "mkdirs", root + "/" + g.dirName() + "/" + g.dirName() } );
			g.op( actor, { "write", root + "/" + g.newName(), "5" } );
		}
		if ( on && g.r.chance( 0.5 ) ) {
			if ( g.r.chance( 0.5 ) )
				g.pause( actor );
			g.op( actor, { "umount", root } );
		}
		return;
	}
	switch ( g.r.below( 5 ) ) {
		case 0:
			g.op( actor, { "rmrf", root } );
			break;
		case 1:
			g.op( actor, { "mv", root, g.outside + "/r" + S( g.r.below( 2 ) ) } );
			break;
		case 2:
			g.op( actor, { "rmrf", root } );
			g.op( actor, { "write", root, "4" } );
			if ( g.r.chance( 0.5 ) ) {
				g.pause( actor );
				g.op( actor, { "unlink", root } );
			}
			break;
		default:
			g.op( actor, { "mv", root, g.outside + "/r0" } );
	}
	if ( g.r.chance( 0.5 ) )
		g.pause( actor );
	switch ( g.r.below( 4 ) ) {
		case 0:
			g.op( actor, { "mv", g.outside + "/r0", root } );
			break;
		case 1:
		case 2:
			g.op( actor, { "mkdir", root } );
			if ( g.r.chance( 0.7 ) )
				g.op( actor, { "mkdirs", root + "/" + g.dirName() + "/" + g.dirName() } );
			g.op( actor, { "write", root + "/" + g.newName(), "5" } );
			break;
		default:
			break;
	}
}
// a file and a directory trade places
void trade( Gen& g, const std::string& actor ) {
	std::string d = g.anyDir( true ) + "/" + ( g.r.chance( 0.5 ) ? g.newName() : g.dirName() );
	for ( int i = g.r.range( 1, 3 ); i > 0; i-- ) {
		g.op( actor, { "rmrf", d } );
		g.op( actor, { "unlink", d } );
		if ( g.r.chance( 0.3 ) )
			g.pause( actor );
		if ( g.r.chance( 0.5 ) ) {
			g.op( actor, { "mkdir", d } );
			if ( g.r.chance( 0.5 ) )
				g.op( actor, { "write", d + "/" + g.newName(), "3" } );
		} else
			g.op( actor, { g.r.chance( 0.8 ) ? "write" : "fifo", d, "3" } );
		if ( g.r.chance( 0.3 ) )
			g.pause( actor );
	}
}
Plan c15( Gen& g ) {
	Mix m;
	m.checks = "mirror once latency probe";
	m.uid = true;
	m.generic = 100;
	m.capi = 10;
	m.flags = g.randFlags() & ~F_HANDLE;
	// a hard link would let a change be made through a name that a mount hides
	bool mounts = g.r.chance( 0.3 );
	if ( mounts )
		m.flags &= ~F_LINK;
	m.burstMax = 8;
	g.turbulent = g.r.chance( 0.5 );
	setupWatches( g, m );
	int phases = g.r.range( 1, 3 );
	for ( int k = 0; k < phases; k++ ) {
		g.phase( m.checks );
		int actors = g.r.range( 1, 3 );
		double pp = g.r.chance( 0.5 ) ? 0.4 : g.r.chance( 0.5 ) ? 0.1 : 0;
		for ( int a = 0; a < actors; a++ ) {
			g.burst( "F" + S( a ), g.r.range( 1, m.burstMax ), m.flags, pp );
			if ( g.r.chance( 0.2 ) )
				trade( g, "F" + S( a ) );
			std::string d = g.subDir();
			if ( mounts && !d.empty() && g.r.chance( 0.4 ) ) {
				g.op( "F" + S( a ), { g.r.chance( 0.5 ) ? "over" : "umount", d } );
				if ( g.r.chance( 0.5 ) )
					g.op( "F" + S( a ), { "mkdirs", d + "/" + g.dirName() + "/" + g.dirName() } );
				if ( g.r.chance( 0.5 ) )
					g.op( "F" + S( a ), { "write", d + "/" + g.newName(), "3" } );
				if ( g.r.chance( 0.3 ) )
					g.pause( "F" + S( a ) );
				if ( g.r.chance( 0.3 ) )
					g.op( "F" + S( a ), { "umount", d } );
			}
		}
		if ( g.r.chance( 0.2 ) )
			rootTrouble( g, g.r.chance( 0.5 ) ? "F0" : "R", "/w/t", mounts );
		// one change and then nothing, long after the others
		if ( g.r.chance( 0.3 ) )
			g.op( "F9", { "sleep", S( g.r.range( 1, 2500 ) ) } ), g.burst( "F9", 1, m.flags, 0 );
	}
	g.sched( false );
	return g.p;
}

// ---- one change between two polls
Plan c16( Gen& g ) {
	g.osVariety();
	bool two = g.r.chance( 0.3 );
	g.baseDirs( two ? Args{ "/w/t", "/w/u" } : Args{ "/w/t" } );
	g.names = g.r.range( 2, 4 );
	g.maxDepth = g.r.range( 1, 3 );
	g.seedTree( g.r.range( 1, 7 ), g.r.range( 1, 8 ) );
	bool capi = g.r.chance( 0.1 );
	Args nw = { "new", "W" }, nv = { "new", "V" };
	kindOf( g, 100, capi, nw );
	g.init( nw );
	bool rec = g.r.chance( 0.8 );
	g.init( { "add", "W", "A", "/w/t", "LA", rec ? "r" : "n" } );
	if ( two ) {
		if ( g.r.chance( 0.4 ) ) {
			kindOf( g, 100, capi, nv );
			g.init( nv );
			g.init( { "watch", "V" } );
			g.init( { "add", "V", "B", g.r.chance( 0.5 ) ? "/w/u" : "/w/t", "LB", g.r.chance( 0.8 ) ? "r" : "n" } );
		} else
			g.init( { "add", "W", "B", "/w/u", "LB", g.r.chance( 0.8 ) ? "r" : "n" } );
	}
	g.init( { "watch", "W" } );
	int phases = g.r.range( 2, 9 );
	bool rootGone = false;
	int no = 0;
	for ( int k = 0; k < phases; k++ ) {
		g.phase( "net mirror" );
		g.op( "F0", { "usleep", S( g.r.range( 1, 1100000 ) ) } );
		auto op = [&]( Args a ) { g.op( "F0", a ); };
		auto fill = [&]( const std::string& d ) {  // a directory with content
			op( { "mkdir", d } );
			g.m.dirs.insert( d );
			std::string at = d;
			for ( int i = g.r.range( 0, 4 ); i > 0; i-- )
				if ( g.r.chance( 0.3 ) && g.depth( at ) < 3 + g.maxDepth ) {
					at += "/n" + S( g.r.below( 3 ) );
					op( { "mkdir", at } );
					g.m.dirs.insert( at );
				} else {
					std::string f = at + "/" + g.newName();
					op( { "write", f, S( g.r.range( 0, 20 ) ) } );
					g.m.files.insert( f );
				}
		};
		std::string fresh = g.anyDir( true ) + "/x" + S( no++ );
		int c = (int)g.r.below( 24 );
		if ( rootGone && g.r.chance( 0.5 ) ) {
			fill( "/w/t" );
			rootGone = false;
		} else if ( c < 2 )
			fill( fresh );
		else if ( c < 4 ) {	 // moved in, out or across with everything in it
			std::string d = g.subDir();
			if ( d.empty() || fresh.compare( 0, d.size() + 1, d + "/" ) == 0 )
				continue;
			std::string to = g.r.chance( 0.4 ) ? g.outside + "/x" + S( no++ ) : fresh;
			op( { "mv", d, to } );
			g.m.move( d, to );
		} else if ( c < 6 ) {
			std::string d = g.subDir();
			if ( d.empty() )
				continue;
			op( { "rmrf", d } );
			g.m.drop( d );
		} else if ( c < 9 ) {  // a new name in the same directory
			std::string d = g.r.chance( 0.5 ) || g.m.files.empty() ? g.subDir() : g.anyFile();
			if ( d.empty() )
				continue;
			std::string to = d.substr( 0, d.rfind( '/' ) ) + "/" + g.r.pick( Args{ "a", "m", "z" } ) + S( no++ );
			op( { "mv", d, to } );
			g.m.move( d, to );
		} else if ( c < 11 ) {	// over another name
			if ( g.m.files.size() < 2 )
				continue;
			std::string a = g.anyFile(), b = g.anyFile();
			if ( a == b )
				continue;
			op( { "mv", a, b } );
			g.m.move( a, b );
		} else if ( c < 12 && !g.m.files.empty() ) {
			std::string f = g.anyFile();
			g.m.drop( f );
			op( { "unlink", f } );
			if ( g.r.chance( 0.5 ) )
				fill( f );
			else {
				g.m.files.insert( f );
				op( { "write", f, S( g.r.range( 0, 20 ) ) } );
			}
		} else if ( c < 13 ) {
			std::string d = g.subDir();
			if ( d.empty() )
				continue;
			g.m.drop( d );
			op( { "rmrf", d } );
			op( { "write", d, S( g.r.range( 0, 20 ) ) } );
			g.m.files.insert( d );
		} else if ( c < 15 && !g.m.files.empty() ) {
			std::string f = g.anyFile();
			// same size, other size, only the time, only the permissions
			op( g.r.pick( std::vector<Args>{ { "write", f, "5" },
											 { "append", f, S( g.r.range( 1, 9 ) ) },
											 { "trunc", f, "3" },
											 { "utime", f, S( g.r.range( -5000, 5000 ) ) },
											 { "utime", f, "4294967296000" },
											 { "grow", f, S( g.r.range( 1, 9 ) ) },
											 { "grow", f, "4294967296" },
											 { "replace", f, g.outside + "/new" },
											 { "chmod", f, g.r.chance( 0.5 ) ? "600" : "644" } } ) );
		} else if ( c < 16 )
			op( { "chmod", g.anyDir( true ), g.r.chance( 0.5 ) ? "700" : "755" } );
		else if ( c < 17 )
			op( { "fifo", fresh } );
		else if ( c < 18 && !rootGone ) {
			op( { "rmrf", "/w/t" } );
			g.m.drop( "/w/t" );
			rootGone = true;
		} else
			op( g.fsOp( F_MKDIR | F_RMDIR | F_MVDIR | F_XDIR | F_XFILE | F_OUT ) );
	}
	g.sched( false );
	g.p.sched.pUser = g.p.sched.pSys = 0;
	return g.p;
}

// ---- time
Plan c17( Gen& g ) {
	Mix m;
	m.generic = 50;
	m.capi = 15;
	m.flags = g.randFlags() & ~F_HANDLE;
	setupWatches( g, m );
	g.p.cfg.erase( "statdelay" );
	g.p.cfg.erase( "slack_ms" );
	if ( g.r.chance( 0.4 ) )
		g.p.cfg["fdbase"] = S( g.r.pick( std::vector<int>{ 60, 250, 1020, 1024, 1100, 4000, 70000 } ) );
	int phases = g.r.range( 1, 3 );
	for ( int k = 0; k < phases; k++ ) {
		g.phase( g.r.chance( 0.5 ) ? "latency idle mirror" : "latency mirror" );
		int actors = g.r.range( 1, 2 );
		for ( int a = 0; a < actors; a++ )
			g.burst( "F" + S( a ), g.r.range( 1, 6 ), m.flags, 0.6 );
		if ( g.r.chance( 0.6 ) )
			for ( int n = g.r.range( 1, 3 ); n > 0; n-- ) {
				g.pause( "K" );
				g.op( "K", { "clockjump", S( g.r.pick( std::vector<int>{ 1, -1, 60, -60, 3600, -3600, 86400,
																		 -86400, 40000000, -900000000 } ) *
										 1000l * ( g.r.chance( 0.3 ) ? 7 : 1 ) / g.r.range( 1, 3 ) ) } );
			}
		if ( g.r.chance( 0.3 ) )
			fault( g, k, g.r.chance( 0.5 ) ? "nanosleep" : "select", g.r.range( 1, 6 ), "EINTR",
				   g.r.range( 1, 5 ) );
		if ( g.r.chance( 0.2 ) )
			fault( g, k, g.r.chance( 0.5 ) ? "nanosleep" : "read", g.r.range( 1, 6 ),
				   "DELAY" + S( g.r.range( 1, 40 ) ), 1 );
	}
	g.sched( false );
	return g.p;
}

// ---- synthetic events
// ---- symbolic links
Plan c18( Gen& g ) {
	g.osVariety();
	g.p.cfg["links"] = "1";
	g.baseDirs( { "/w/t" } );
	g.names = g.r.range( 2, 4 );
	g.maxDepth = g.r.range( 1, 3 );
	g.seedTree( g.r.range( 0, 5 ), g.r.range( 0, 3 ) );
	int nx = g.r.range( 1, 4 );
	Args xdirs, stable = { "/w/t/st0", "/w/t/st0/st1" };
	for ( auto& d : stable )
		g.init( { "mkdir", d } );
	for ( int i = 0; i < nx; i++ ) {
		std::string x = g.xbase + S( i );
		xdirs.push_back( x );
		g.init( { "mkdirs", x + ( g.r.chance( 0.5 ) ? "/d0" : g.r.chance( 0.5 ) ? "/d1/d0" : "" ) } );
		if ( g.r.chance( 0.5 ) )
			g.init( { "write", x + "/f0", "3" } );
	}
	/// Other names for the targets: links to links, paths through links
	Args aliases;
	if ( g.r.chance( 0.4 ) ) {
		std::string x = g.r.pick( xdirs );
		g.init( { "symlink", x, "/w/as" } );
		g.init( { "symlink", g.r.chance( 0.5 ) ? "as" : "/w/as", "/w/at" } );
		g.init( { "symlink", "/", "/w/rt" } );
		aliases = { "/w/as", "/w/at", "/w/rt" + g.r.pick( xdirs ) };
		if ( g.r.chance( 0.5 ) )
			aliases.push_back( "/w/rt/w/t/st0" );
	}
	/// A directory and one inside it are both the target of a link
	bool inner = g.r.chance( 0.3 );
	auto target = [&]() -> std::string {
		int k = (int)g.r.below( 10 );
		if ( !aliases.empty() && g.r.chance( 0.25 ) )
			return g.r.pick( aliases );
		if ( k < 6 && inner && g.r.chance( 0.35 ) )
			return g.r.pick( xdirs ) + ( g.r.chance( 0.7 ) ? "/d0" : "/d1/d0" );
		if ( k < 6 )
			return g.r.pick( xdirs );
		return k < 8 ? g.r.pick( stable ) : k < 9 ? "." : "/w/t";
	};
	Args links;
	// a place for a link, in the tree or behind another link
	auto place = [&]() -> std::string {
		int k = (int)g.r.below( 10 );
		std::string d = k < 7 ? g.anyDir( true ) : k < 8 ? g.r.pick( stable ) : g.r.pick( xdirs );
		return d + "/l" + S( g.r.below( 4 ) );
	};
	auto create = [&]( const std::string& actor, const std::string& l ) {
		std::string t = target();
		if ( l.compare( 0, g.xbase.size(), g.xbase ) == 0 &&
			 t.compare( 0, g.xbase.size(), g.xbase ) == 0 && g.r.chance( 0.4 ) )
			t = ".." + t.substr( 2 );
		Args a = { "symlink", t, l };
		links.push_back( l );
		actor.empty() ? g.init( a ) : g.op( actor, a );
	};
	for ( int i = g.r.range( 0, 4 ); i > 0; i-- )
		create( "", place() );
	Args nw = { "new", "W" };
	bool capi = g.r.chance( 0.1 );
	kindOf( g, 50, capi, nw );
	g.init( nw );
	int mode = (int)g.r.below( 10 );
	bool follow = mode >= 2 && mode != 9, oos = mode >= 4;
	g.init( { "follow", "W", S( follow ) } );
	if ( oos || g.r.chance( 0.5 ) )
		g.init( { "oos", "W", S( oos ) } );
	std::string path = "/w/t";
	if ( g.r.chance( 0.25 ) ) {
		path = follow && oos && g.r.chance( 0.5 ) ? g.outside + "/lt" : "/w/lt";
		g.init( { "symlink", "/w/t", path } );
	}
	bool late = g.r.chance( 0.5 );
	if ( !late )
		g.init( { "watch", "W" } );
	Args a = { "add", "W", "A", path, "LA", g.r.chance( 0.9 ) ? "r" : "n" };
	if ( g.r.chance( 0.25 ) )
		a.push_back( "syn" );
	g.init( a );
	if ( late )
		g.init( { "watch", "W" } );
	bool native = nw[2] == "native";
	/// Another watcher with its own options looks at the same links
	if ( g.r.chance( 0.25 ) ) {
		Args v = { "new", "V" };
		kindOf( g, 50, capi, v );
		native |= v[2] == "native";
		g.init( v );
		g.init( { "follow", "V", S( g.r.chance( 0.8 ) ) } );
		g.init( { "oos", "V", S( g.r.chance( 0.6 ) ) } );
		g.init( { "watch", "V" } );
		g.init( { "add", "V", "B", path, "LB", "r" } );
	}
	if ( g.r.chance( 0.2 ) )
		xdirs.push_back( g.outside );
	int flags = g.randFlags() & ~F_HANDLE;
	int phases = g.r.range( 1, 3 );
	for ( int k = 0; k < phases; k++ ) {
		g.phase( "mirror probe" );
		bool burst = g.r.chance( 0.7 );
		if ( burst )
			g.burst( "F0", g.r.range( 1, 6 ), flags, 0.3 );
		int nk = g.r.range( 0, 5 );
		// a directory that is renamed while its content is listed is not promised natively
		bool mayMove = !native || !nk;
		for ( ; nk > 0; nk-- ) {
			if ( g.r.chance( 0.4 ) )
				g.pause( "K" );
			std::string l = links.empty() ? place() : g.r.pick( links );
			if ( !g.mayChangeDir( l ) )
				continue;
			switch ( g.r.below( 7 ) ) {
				case 6: {  // a directory and a link trade places; nothing else changes in there
						   // meanwhile, as what is done by path could reach the wrong one
					std::string d = g.subDir();
					if ( burst || d.empty() || d.compare( 0, 5, "/w/t/" ) != 0 ||
						 !g.mayMoveDir( d, d ) )
						continue;
					g.m.drop( d );
					g.op( "K", { "rmrf", d } );
					if ( g.r.chance( 0.3 ) )
						g.pause( "K" );
					create( "K", d );
					links.pop_back();
					if ( nw[2] == "native" && g.r.chance( 0.4 ) ) {
						g.pause( "K" );
						g.op( "K", { "unlink", d } );
						if ( g.r.chance( 0.3 ) )
							g.pause( "K" );
						g.op( "K", { "mkdirs", d + "/d0" } );
					}
					break;
				}
				case 0:
				case 1:
					l = place();
					if ( g.mayChangeDir( l ) )
						create( "K", l );
					break;
				case 2:
					g.op( "K", { "unlink", l } );
					break;
				case 3: {  // points somewhere else from now on
					std::string tmp = l.substr( 0, l.rfind( '/' ) ) + "/ltmp";
					create( "K", tmp );
					links.pop_back();
					if ( g.r.chance( 0.3 ) )
						g.pause( "K" );
					g.op( "K", { "mv", tmp, l } );
					links.push_back( l );
					break;
				}
				case 4:
					g.op( "K", { "unlink", l } );
					create( "K", l );
					break;
				default: {
					std::string to = place();
					if ( !g.mayChangeDir( to ) )
						continue;
					g.op( "K", { "mv", l, to } );
					links.push_back( to );
				}
			}
		}
		// the targets change as well
		std::set<std::string> moved;
		for ( int n = g.r.range( 0, 3 ); n > 0; n-- ) {
			std::string x = g.r.pick( xdirs );
			if ( moved.count( x ) )
				continue;
			/// Nobody tells a native watcher when what a link leads to is renamed or removed
			int c = inner && native ? 2 : (int)g.r.below( 4 );
			std::string d = x + "/d" + S( g.r.below( 3 ) ), d2 = x + "/d" + S( g.r.below( 3 ) );
			if ( c == 0 && d != d2 && mayMove && !moved.count( x + "*" ) ) {
				g.op( "X", { "mv", d, d2 } );
				moved.insert( x );
			} else if ( c == 1 )
				g.op( "X", { "rmrf", d } );
			else
				g.op( "X", { "mkdirs", d + ( g.r.chance( 0.5 ) ? "/d0" : "" ) } );
			moved.insert( x + "*" );
			if ( g.r.chance( 0.4 ) )
				g.pause( "X" );
		}
	}
	g.sched( false );
	return g.p;
}
Plan c19( Gen& g ) {
	g.osVariety();
	bool two = g.r.chance( 0.3 );
	g.baseDirs( two ? Args{ "/w/t", "/w/u" } : Args{ "/w/t" } );
	g.names = g.r.range( 2, 4 );
	g.maxDepth = g.r.range( 2, 4 );
	g.seedTree( g.r.range( 0, 3 ), g.r.range( 0, 4 ) );
	bool capi = g.r.chance( 0.2 );
	Args nw = { "new", "W", "native" };
	if ( capi )
		nw.push_back( "capi" );
	g.init( nw );
	g.init( { "watch", "W" } );
	for ( int i = 0; i < ( two ? 2 : 1 ); i++ ) {
		Args a = { "add", "W", "S" + S( i ), i ? "/w/u" : "/w/t", "L" + S( i ), "r" };
		if ( g.r.chance( 0.8 ) )
			a.push_back( "syn" );
		else if ( g.r.chance( 0.5 ) )
			a.push_back( "syn0" );
		if ( g.r.chance( 0.2 ) )
			a.push_back( "opts" );
		g.init( a );
	}
	int phases = g.r.range( 1, 3 );
	for ( int k = 0; k < phases; k++ ) {
		g.phase( "mirror nosynth probe" );
		int actors = g.r.range( 1, 3 );
		for ( int a = 0; a < actors; a++ ) {
			std::string f = "F" + S( a );
			for ( int n = g.r.range( 1, 4 ); n > 0; n-- ) {
				if ( g.r.chance( 0.5 ) ) {
					// a tree is created and filled at once
					std::string d = g.anyDir( true ) + "/" + g.dirName();
					if ( g.m.files.count( d ) || g.depth( d ) > 5 || !g.mayChangeDir( d ) )
						continue;
					g.m.dirs.insert( d );
					g.op( f, { "mkdir", d } );
					for ( int q = g.r.range( 0, 3 ); q > 0; q-- ) {
						bool dir = g.r.chance( 0.4 );
						std::string x = d + "/" + ( dir ? g.dirName() : g.newName() );
						if ( dir ) {
							g.m.dirs.insert( x );
							g.op( f, { "mkdir", x } );
							if ( g.r.chance( 0.6 ) ) {
								std::string y = x + "/" + g.newName();
								g.m.files.insert( y );
								g.op( f, { "write", y, "4" } );
							}
						} else {
							g.m.files.insert( x );
							g.op( f, { g.r.chance( 0.1 ) ? "fifo" : "write", x, "4" } );
						}
						if ( g.r.chance( 0.2 ) )
							g.op( f, { "usleep", S( g.r.range( 1, 200 ) ) } );
					}
				} else if ( g.r.chance( 0.4 ) ) {
					// a prepared tree is moved in
					std::string d = g.outside + "/" + g.dirName(), t = g.anyDir( true ) + "/" + g.dirName();
					if ( g.m.files.count( t ) || !g.mayMoveDir( d, t ) )
						continue;
					g.op( f, { "mkdirs", d + "/" + g.dirName() } );
					g.op( f, { "write", d + "/" + g.newName(), "4" } );
					g.m.dirs.insert( t );
					g.op( f, { "mv", d, t } );
				} else
					g.burst( f, 1, F_MKDIR | F_RMDIR | F_MVDIR | F_XDIR | F_OUT | F_XFILE, 0.2 );
			}
		}
	}
	g.sched( g.r.chance( 0.5 ) );
	return g.p;
}

// ---- C interface
Plan c20( Gen& g ) {
	if ( g.r.chance( 0.12 ) ) {
		if ( g.r.chance( 0.5 ) )
			g.p.cfg["memreuse"] = "1";
		return lifeCycles( g, true );
	}
	g.turbulent = false;
	g.osVariety();
	if ( g.r.chance( 0.6 ) )
		g.p.cfg["memreuse"] = "1";
	g.baseDirs( { "/w/t", "/w/u", "/w/v" } );
	g.names = 3;
	g.maxDepth = 2;
	g.seedTree( g.r.range( 0, 4 ), g.r.range( 0, 4 ) );
	const char* roots[] = { "/w/t", "/w/u", "/w/v" };
	int nw = g.r.range( 1, 3 );
	Args names = { "W", "V", "X" };
	std::map<std::string, std::vector<Args>> make;
	for ( int i = 0; i < nw; i++ ) {
		std::string w = names[i];
		bool gen = g.r.chance( 0.35 );
		make[w].push_back( { "new", w, gen ? "generic" : "native", "capi" } );
		make[w].push_back( { "watch", w } );
		int k = g.r.range( 1, 3 );
		for ( int s = 0; s < k; s++ ) {
			// watches of one watcher share functions and parameters at random
			Args a = { "add", w, w + S( s ), roots[s],
					   g.r.chance( 0.25 ) ? "LS" : "L" + w + S( g.r.below( 2 ) ),
					   g.r.chance( 0.7 ) ? "r" : "n" };
			if ( g.r.chance( 0.4 ) )
				a.push_back( "fn2" );
			if ( g.r.chance( 0.3 ) )
				a.push_back( "opts" );
			if ( g.r.chance( 0.3 ) )
				a.push_back( "nomiss" );
			if ( !gen && g.r.chance( 0.3 ) )
				a.push_back( "syn" );
			else if ( g.r.chance( 0.2 ) )
				a.push_back( "syn0" );
			make[w].push_back( a );
		}
		if ( g.r.chance( 0.5 ) )
			make[w].push_back( { g.r.chance( 0.5 ) ? "follow" : "oos", w, S( g.r.below( 2 ) ) } );
		if ( g.r.chance( 0.7 ) )
			for ( auto& o : make[w] )
				g.init( o );
	}
	int phases = g.r.range( 1, 4 );
	for ( int k = 0; k < phases; k++ ) {
		g.phase( "mirror missed probe" );
		bool churn = g.r.chance( 0.7 );
		int flags = ( churn ? F_MKDIR | F_RMDIR | F_XFILE : g.randFlags() ) & ~F_HANDLE;
		bool over = k == phases - 1 && g.r.chance( 0.3 );
		if ( over )
			flags &= F_XFILE;
		for ( int a = g.r.range( 1, 2 ); a > 0; a-- )
			g.burst( "F" + S( a ), g.r.range( 1, 8 ), flags, 0.3 );
		if ( over ) {
			g.pause( "K" );
			g.op( "K", { "overflow" } );
		}
		if ( churn )
			for ( int n = g.r.range( 1, 3 ); n > 0; n-- ) {
				std::string w = names[g.r.below( nw )];
				std::string u = "U" + w;	// one user thread per watcher
				if ( g.r.chance( 0.5 ) )
					g.pause( u );
				switch ( g.r.below( 5 ) ) {
					case 0:
					case 1:
						g.op( u, { "del", w } );
						for ( auto& o : make[w] )
							g.op( u, o );
						break;
					case 2:
						g.op( u, { "del", w } );
						break;
					case 3: {
						auto& v = make[w];
						Args a = v[g.r.below( v.size() )];
						if ( a[0] == "add" ) {
							g.op( u, { g.r.chance( 0.5 ) ? "rm" : "rmpath", w, a[2] } );
							g.op( u, a );
						} else if ( a[0] != "new" )
							g.op( u, a );
						break;
					}
					default:
						g.op( u, { g.r.chance( 0.5 ) ? "lasterr" : "clrerr", "c" } );
				}
			}
	}
	if ( g.r.chance( 0.3 ) )
		g.p.cbs.push_back( { "L" + names[0] + "0", g.r.range( 1, 6 ),
							 g.r.chance( 0.6 ) ? Args{ "usleep", S( g.r.range( 1, 9000 ) ) }
											   : Args{ "rm", names[0], names[0] + "0" } } );
	g.sched( g.r.chance( 0.5 ) );
	return g.p;
}

// ---- nothing accumulates
Plan c21( Gen& g ) {
	g.osVariety();
	g.baseDirs( { "/w/t", "/w/u" } );
	if ( g.r.chance( 0.6 ) )
		g.init( { "mkdirs", g.r.chance( 0.5 ) ? "/w/u/k/l" : "/w/u/k" } );
	g.names = 3;
	g.maxDepth = 3;
	bool capi = g.r.chance( 0.2 );
	Args a = { "new", "W" };
	kindOf( g, 45, capi, a );
	g.init( a );
	bool started = g.r.chance( 0.85 );
	if ( started )
		g.init( { "watch", "W" } );
	Args addT = { "add", "W", "A", "/w/t", "LA", g.r.chance( 0.9 ) ? "r" : "n" };
	if ( g.r.chance( 0.3 ) )
		addT.push_back( "syn" );
	bool keep = g.r.chance( 0.6 );
	if ( keep )
		g.init( addT );
	int cycles = g.r.range( 7, 10 );
	// one cycle: a list of operations with %% standing for a part of the name that may change
	bool unique = g.r.chance( 0.6 );
	std::vector<std::pair<std::string, Args>> body;
	auto dn = [&]( int i ) { return "/w/t/d" + S( i ) + "%%"; };
	int parts = g.r.range( 1, 4 );
	bool errors = false;
	for ( int q = 0; q < parts; q++ ) {
		std::string f = g.r.chance( 0.7 ) ? "F0" : "F1";
		auto pause = [&] {
			if ( g.r.chance( 0.4 ) )
				body.push_back( { f, { "sleep", S( g.r.range( 1, 150 ) ) } } );
		};
		switch ( g.r.below( 8 ) ) {
			case 0:
				body.push_back( { f, { "mkdirs", dn( q ) + "/x/y" } } );
				pause();
				body.push_back( { f, { "write", dn( q ) + "/x/f", "3" } } );
				pause();
				body.push_back( { f, { "rmrf", dn( q ) } } );
				break;
			case 1:
				body.push_back( { f, { "mkdir", dn( q ) } } );
				body.push_back( { f, { "sleep", "160" } } );
				body.push_back( { f, { "mv", dn( q ), dn( q ) + "m" } } );
				pause();
				body.push_back( { f, { "rmrf", dn( q ) + "m" } } );
				break;
			case 2:
				body.push_back( { f, { "mkdirs", dn( q ) + "/x" } } );
				body.push_back( { f, { "sleep", "160" } } );
				body.push_back( { f, { "mv", dn( q ), g.outside + "/d" + S( q ) + "%%" } } );
				pause();
				if ( g.r.chance( 0.5 ) )
					body.push_back( { f, { "rmrf", g.outside + "/d" + S( q ) + "%%" } } );
				else {
					body.push_back( { f, { "mv", g.outside + "/d" + S( q ) + "%%", dn( q ) } } );
					pause();
					body.push_back( { f, { "rmrf", dn( q ) } } );
				}
				break;
			case 3:
				body.push_back( { "U0", { "add", "W", "B" + S( q ), "/w/u", "LB", "r" } } );
				pause();
				body.push_back( { "U0", { g.r.chance( 0.5 ) ? "rm" : "rmpath", "W", "B" + S( q ) } } );
				break;
			case 4:
				errors = true;
				body.push_back( { "U0", { "add", "W", "E" + S( q ), "/w/missing", "LB", "r" } } );
				body.push_back( { "U0", { "add", "W", "E" + S( q ), "/w/t", "LA", "r" } } );
				if ( !keep )
					body.push_back( { "U0", { "rm", "W", "E" + S( q ) } } );
				break;
			case 5:
				body.push_back( { f, { "write", "/w/t/f%%", "5" } } );
				pause();
				body.push_back( { f, { "mv", "/w/t/f%%", "/w/t/g%%" } } );
				pause();
				body.push_back( { f, { "unlink", "/w/t/g%%" } } );
				break;
			case 6:
				body.push_back( { "U0", { "new", "T" + S( q ), g.r.chance( 0.6 ) ? "native" : "generic" } } );
				if ( capi )
					body.back().second.push_back( "capi" );
				body.push_back( { "U0", { "add", "T" + S( q ), "TS" + S( q ), "/w/t", "LT" + S( q ), "r" } } );
				if ( g.r.chance( 0.5 ) )
					body.push_back( { "U0", { "add", "T" + S( q ), "TU" + S( q ), "/w/u", "LU" + S( q ), "r" } } );
				if ( g.r.chance( 0.7 ) )
					body.push_back( { "U0", { "watch", "T" + S( q ) } } );
				pause();
				body.push_back( { "U0", { "del", "T" + S( q ) } } );
				break;
			default:
				// the watched tree of another root comes and goes while it is watched
				body.push_back( { "U0", { "mkdirs", "/w/n%%/x" } } );
				body.push_back( { "U0", { "add", "W", "N" + S( q ), "/w/n%%", "LN" + S( q ) + "@@", "r" } } );
				// (the registration of a C callback lives as long as its watcher)
				if ( capi )
					body.back().second[4] = "LN" + S( q );
				else if ( g.r.chance( 0.4 ) ) {
					// the listener gives up the watch
					for ( int k = 0; k < cycles; k++ )
						g.p.cbs.push_back( { "LN" + S( q ) + S( 10 + k ), 1, { "rm", "W", "N" + S( q ) } } );
					body.push_back( { "U0", { "touch", "/w/n%%/t" } } );
					body.push_back( { "U0", { "sleep", "300" } } );
				}
				pause();
				if ( g.r.chance( 0.5 ) ) {
					body.push_back( { "U0", { "rmrf", "/w/n%%" } } );
					body.push_back( { "U0", { "sleep", "250" } } );
				}
				body.push_back( { "U0", { g.r.chance( 0.5 ) ? "rm" : "rmpath", "W", "N" + S( q ) } } );
				body.push_back( { "U0", { "rmrf", "/w/n%%" } } );
		}
	}
	(void)errors;
	if ( g.r.chance( 0.25 ) ) {
		static const char* calls[] = { "opendir", "stat", "inotify_add_watch", "readdir", "inotify_init" };
		static const char* kinds[] = { "ENOMEM", "EACCES", "EMFILE" };
		int call = (int)g.r.below( 5 ), nth = g.r.range( 1, 8 ), kind = (int)g.r.below( 3 );
		for ( int k = 0; k < cycles; k++ )
			fault( g, k, calls[call], nth, kinds[kind], 1 );
	}
	for ( int k = 0; k < cycles; k++ ) {
		g.phase( k == cycles - 1 && g.p.faults.empty() ? "grow watches" : "grow" );
		for ( auto& b : body ) {
			Args o = b.second;
			for ( auto& x : o ) {
				if ( x.size() > 2 && !x.compare( x.size() - 2, 2, "@@" ) )
					x = x.substr( 0, x.size() - 2 ) + S( 10 + k );
				size_t at = x.find( "%%" );
				if ( at != std::string::npos )
					x = x.substr( 0, at ) + ( unique ? S( 10 + k ) : "" ) + x.substr( at + 2 );
			}
			g.op( b.first, o );
		}
	}
	g.sched( false );
	if ( g.r.chance( 0.5 ) )
		g.p.sched.pUser = g.p.sched.pSys = g.p.sched.pSync = 0;
	return g.p;
}

// ---- watch()
Plan c23( Gen& g ) {
	g.osVariety();
	g.baseDirs( { "/w/t", "/w/u" } );
	g.names = g.r.range( 2, 4 );
	g.maxDepth = g.r.range( 1, 3 );
	g.seedTree( g.r.range( 0, 4 ), g.r.range( 0, 5 ) );
	bool capi = g.r.chance( 0.25 );
	int nw = g.r.range( 1, 2 );
	Args names = { "W", "V" };
	const char* roots[] = { "/w/t", "/w/u" };
	std::vector<Args> late;	 // started without any watch
	for ( int i = 0; i < nw; i++ ) {
		Args a = { "new", names[i] };
		kindOf( g, 40, capi, a );
		g.init( a );
		Args b = { "add", names[i], "S" + names[i], roots[i], "L" + names[i],
				   g.r.chance( 0.8 ) ? "r" : "n" };
		if ( g.r.chance( 0.3 ) )
			b.push_back( "syn" );
		if ( g.r.chance( 0.2 ) ) {
			g.init( { "watch", names[i] } );
			late.push_back( b );
		} else
			g.init( b );
	}
	int phases = g.r.range( 1, 3 );
	int tries = g.r.chance( 0.4 ) ? g.r.range( 1, 3 ) : 0;
	if ( tries )
		fault( g, -1, "pthread_create", g.r.range( 1, 2 ), g.r.chance( 0.5 ) ? "EAGAIN" : "ENOMEM", tries );
	for ( int k = 0; k < phases; k++ ) {
		g.phase( "mirror modified exact latency probe registry" );
		if ( k == 0 || g.r.chance( 0.5 ) ) {
			for ( auto& b : late ) {
				g.op( "UL", { "settle" } );
				g.op( "UL", b );
			}
			late.clear();
		}
		int actors = g.r.range( 1, 2 );
		for ( int a = 0; a < actors; a++ )
			g.burst( "F" + S( a ), g.r.range( 1, 8 ), g.randFlags() & ~F_HANDLE, 0.4 );
		for ( int i = 0; i < nw; i++ ) {
			if ( k && g.r.chance( 0.6 ) )
				continue;
			int callers = g.r.range( 1, 3 );
			for ( int c = 0; c < callers; c++ ) {
				std::string u = "U" + S( c );
				if ( g.r.chance( 0.7 ) )
					g.pause( u );
				for ( int n = g.r.range( 1, 2 ) + ( c == 0 ? tries : 0 ); n > 0; n-- )
					g.op( u, { "watch", names[i] } );
			}
		}
	}
	if ( g.r.chance( 0.2 ) )
		g.p.cbs.push_back( { "L" + names[0], g.r.range( 1, 4 ), { "watch", names[0] } } );
	g.sched( g.r.chance( 0.5 ) );
	return g.p;
}

// ---- roots that disappear
Plan c24( Gen& g ) {
	g.osVariety();
	g.baseDirs( { "/w/t", "/w/u", "/w/v" } );
	g.names = g.r.range( 2, 3 );
	g.maxDepth = 2;
	g.seedTree( g.r.range( 0, 5 ), g.r.range( 0, 6 ) );
	bool capi = g.r.chance( 0.2 );
	int nw = g.r.range( 1, 2 );
	Args names = { "W", "V" };
	for ( int i = 0; i < nw; i++ ) {
		Args a = { "new", names[i] };
		kindOf( g, 35, capi, a );
		g.init( a );
		g.init( { "watch", names[i] } );
	}
	const char* roots[] = { "/w/t", "/w/u", "/w/v" };
	std::vector<Args> adds;
	for ( int i = 0; i < 3; i++ ) {
		std::string w = names[g.r.below( nw )];
		Args a = { "add", w, "S" + S( i ), roots[i], "L" + w + S( g.r.below( 2 ) ),
				   g.r.chance( 0.75 ) ? "r" : "n" };
		if ( g.r.chance( 0.2 ) )
			a.push_back( "syn" );
		adds.push_back( a );
		g.init( a );
	}
	int phases = g.r.range( 1, 3 );
	for ( int k = 0; k < phases; k++ ) {
		g.phase( "mirror probe registry watches" );
		int flags = ( F_MKDIR | F_RMDIR | F_XFILE | ( g.r.chance( 0.3 ) ? F_LINK : 0 ) );
		for ( int a = g.r.range( 0, 2 ); a > 0; a-- )
			g.burst( "F" + S( a ), g.r.range( 1, 6 ), flags, 0.3 );
		int i = (int)g.r.below( 3 );
		std::string root = roots[i];
		std::string actor = g.r.chance( 0.5 ) ? "U1" : "R";
		bool together = actor == "U1";
		rootTrouble( g, actor, root, true );
		if ( g.r.chance( 0.8 ) ) {
			// given up and watched again
			if ( g.r.chance( 0.5 ) )
				g.pause( "U1" );
			g.op( "U1", { g.r.chance( 0.5 ) ? "rm" : "rmpath", adds[i][1], adds[i][2] } );
			if ( together && g.r.chance( 0.7 ) ) {
				if ( g.r.chance( 0.5 ) )
					g.op( "U1", { "mkdirs", root + "/" + g.dirName() } );
				if ( g.r.chance( 0.3 ) )
					g.pause( "U1" );
			}
			g.op( "U1", adds[i] );
			if ( g.r.chance( 0.4 ) )
				g.burst( "U1", g.r.range( 1, 3 ), flags, 0.2 );
		}
	}
	g.sched( g.r.chance( 0.5 ) );
	return g.p;
}

}  // namespace

struct Prop {
	const char* id;
	Plan ( *gen )( Gen& );
	const char* rule;
};
static const Prop table[] = {
	{ "C01", c01,
	  "random burst plans on one or two native watches; non-trivial: a mirror comparison was made after the tree had changed in the window; distinct by plan and interleaving" },
	{ "C02", c02,
	  "random bursts with long-lived handles; non-trivial: the event sequence of a covered directory was compared with a non-empty kernel record; distinct by plan and interleaving" },
	{ "C03", c03,
	  "random histories of directory changes, then a probe file in every directory; non-trivial: a probe in a covered directory was judged; distinct by plan and interleaving" },
	{ "C04", c04,
	  "random histories dominated by moves; non-trivial: a sequence was compared or a probe judged; distinct by plan and interleaving" },
	{ "C05", c05,
	  "two to four trees with equal names under one to three watchers; non-trivial: a mirror or probe was judged; distinct by plan and interleaving" },
	{ "C06", c06,
	  "trees change while watches are removed and added again; non-trivial: a probe or mirror was judged after the churn; distinct by plan and interleaving" },
	{ "C07", c07,
	  "watchers destroyed at random points; non-trivial: every plan (the destructor, threads, descriptors and heap are judged in each); distinct by plan and interleaving" },
	{ "C08", c08,
	  "concurrent programs over the whole API with the race detector on; non-trivial: at least one context switch between library threads in the run and the plan finished; distinct by plan and interleaving" },
	{ "C09", c09,
	  "listeners with scripted API calls; non-trivial: a scripted call ran inside a callback and a check followed; distinct by plan and interleaving" },
	{ "C10", c10,
	  "concurrent add, remove and directories calls; non-trivial: a history of at least two calls was searched for a linearization; distinct by plan and interleaving" },
	{ "C11", c11,
	  "successful and refused addWatch calls on a quiet watcher, with failing system calls; non-trivial: the result of a call was compared with the prediction; distinct by plan and interleaving" },
	{ "C12", c12,
	  "small event queues, forced overflows and slow listeners; non-trivial: a window with an overflow (or, where none happened, the mirror of a changed tree) was judged; distinct by plan and interleaving" },
	{ "C13", c13,
	  "inotify_init fails at one of the creations; non-trivial: a mirror, latency or probe was judged; distinct by plan and interleaving" },
	{ "C14", c14,
	  "failing and delayed system calls and thread creation while trees change; non-trivial: a mirror, sequence or probe was judged; distinct by plan and interleaving" },
	{ "C15", c15,
	  "random bursts on polling watches with disappearing roots, files and directories trading places and slow stat calls; non-trivial: a mirror of a changed tree was judged; distinct by plan and interleaving" },
	{ "C16", c16,
	  "single changes between two polls of a polling watcher; non-trivial: the events of a change that fell between two polls were compared with the trees before and after it; distinct by plan and interleaving" },
	{ "C17", c17,
	  "wall-clock jumps, interrupted and delayed waits, high descriptor numbers; non-trivial: the delay of an event or a mirror was judged; distinct by plan and interleaving" },
	{ "C18", c18,
	  "symbolic links to directories inside and outside the watch created, removed, renamed and pointed elsewhere; non-trivial: a mirror was judged or the coverage of a directory was probed; distinct by plan and interleaving" },
	{ "C19", c19,
	  "trees built and moved in while they are scanned; non-trivial: a mirror of a changed tree was judged; distinct by plan and interleaving" },
	{ "C20", c20,
	  "programs over the C interface with watchers released and created again at the same address; non-trivial: a mirror or probe was judged; distinct by plan and interleaving" },
	{ "C21", c21,
	  "seven to ten repetitions of the same changes; non-trivial: the resource use of the last repetitions was compared; distinct by plan and interleaving" },
	{ "C22", c22,
	  "directories on local, remote and FUSE file systems, failing system calls, relative and absolute watches; non-trivial: a result, a view or the coverage of a directory was compared; distinct by plan and interleaving" },
	{ "C23", c23,
	  "watch() called late, repeatedly, concurrently and with failing thread creation; non-trivial: a mirror, sequence or probe was judged; distinct by plan and interleaving" },
	{ "C24", c24,
	  "roots removed, renamed, replaced and watched again; non-trivial: a mirror or probe was judged; distinct by plan and interleaving" },
};

std::vector<std::string> properties() {
	std::vector<std::string> v;
	for ( auto& t : table )
		v.push_back( t.id );
	return v;
}
std::string rule( const std::string& p ) {
	for ( auto& t : table )
		if ( p == t.id )
			return t.rule;
	return "";
}

/// A directory with hundreds of entries, there from the start or moved in later
static void wide( Gen& g, Plan& p ) {
	static const std::set<std::string> props = { "C01", "C02", "C03", "C04", "C12", "C15",
												 "C16", "C19", "C21", "C23", "C24" };
	static const std::set<std::string> moved = { "C01", "C03", "C15", "C19", "C23" };
	std::string root;
	size_t at = p.init.size();
	int poll = 1000;  // a short period makes for too many scans
	for ( size_t i = 0; i < p.init.size(); i++ ) {
		auto& o = p.init[i];
		if ( o[0] == "new" && i < at )
			at = i;
		for ( auto& x : o )
			if ( o[0] == "new" && x.compare( 0, 5, "poll=" ) == 0 )
				poll = std::min( poll, atoi( x.c_str() + 5 ) );
		if ( o[0] == "add" && root.empty() && o[3].compare( 0, 3, "/w/" ) == 0 )
			root = o[3];
	}
	if ( !props.count( p.property ) || root.empty() || poll < 100 || at == p.init.size() )
		return;
	bool later = moved.count( p.property ) && !p.phases.empty() && g.r.chance( 0.4 );
	std::vector<Args> v;
	if ( g.r.chance( 0.3 ) ) {	// or many levels, one inside the other
		std::string top = later ? "/zz/deep" : root + "/deep", sub;
		bool lengthy = g.r.chance( 0.3 );  // paths nearly as long as the system takes
		int n = lengthy ? g.r.range( 8, 16 ) : g.r.range( 10, 50 );
		v.push_back( { "mkdirs", top } );
		for ( int i = 0; i < n; i++ ) {
			sub += "/p" + S( g.r.below( 3 ) ) + std::string( lengthy ? 237 : 0, 'n' );
			v.push_back( { "mkdir", top + sub } );
			if ( g.r.chance( 0.2 ) )
				v.push_back( { "write", top + sub + "/f", "3" } );
		}
		p.init.insert( p.init.begin() + at, v.begin(), v.end() );
		if ( p.property == "C12" || p.property == "C21" )
			return;	 // their plans say when and where changes may happen
		size_t k = p.phases.empty() ? 0 : g.r.below( p.phases.size() );
		if ( later )
			p.phases[k++].ops.push_back( { "FZ", { "mv", top, root + "/deep" } } );
		std::string cut = sub.substr( 0, sub.rfind( '/', sub.size() - g.r.below( sub.size() / 2 ) - 1 ) );
		for ( ; k < p.phases.size(); k++ ) {
			auto& ops = p.phases[k].ops;
			if ( g.r.chance( 0.5 ) )
				ops.push_back( { "FZ", { "append", root + "/deep" + sub + "/f", "2" } } );
			if ( g.r.chance( 0.5 ) )
				ops.push_back( { "FZ", { "mkdirs", root + "/deep" + sub + "/q" + S( k ) } } );
			if ( g.r.chance( 0.3 ) )
				ops.push_back( { "FZ", { "rmrf", root + "/deep" + cut } } );
		}
		return;
	}
	std::string dir = later ? "/zz/wide" : g.r.chance( 0.3 ) ? root : root + "/wide";
	v.push_back( { "mkdirs", dir } );
	int n = g.r.range( 60, poll < 300 ? 120 : 350 ), dirs = g.r.range( 0, 12 );
	for ( int i = 0; i < n; i++ ) {
		bool d = dirs && g.r.below( n - i ) < (u64)dirs;
		dirs -= d;
		v.push_back( { d ? "mkdir" : "write", dir + "/e" + S( i ) } );
		if ( !d )
			v.back().push_back( S( g.r.below( 3 ) ) );
	}
	p.init.insert( p.init.begin() + at, v.begin(), v.end() );
	if ( later ) {
		auto& ph = p.phases[g.r.below( p.phases.size() )];
		ph.ops.push_back( { "FZ", { "mv", dir, root + "/wide" } } );
	}
}

/// The path of a watch can be written in many ways
void spelling( Gen& g, Plan& p ) {
	std::map<std::string, std::string> to;
	auto visit = [&]( Args& o ) {
		if ( o.size() < 6 || o[0] != "add" || o[3].compare( 0, 3, "/w/" ) != 0 )
			return;
		std::string& t = to[o[3]];
		if ( t.empty() ) {
			std::string r = o[3].substr( 3 ), first = r.substr( 0, r.find( '/' ) );
			t = g.r.pick( Args{ o[3], "/w//" + r, "//w/" + r, "/w/./" + r, "/./w/" + r, "/w/../w/" + r,
								"/w/" + first + "/../" + r, "w/" + r, "./w/" + r, "w/./" + r } );
		}
		o[3] = t;
	};
	for ( auto& o : p.init )
		visit( o );
	for ( auto& ph : p.phases )
		for ( auto& o : ph.ops )
			visit( o.a );
	for ( auto& c : p.cbs )
		visit( c.a );
}

/// The root directory is watched, instead of the only watched directory of the plan
bool rootWatch( Plan& p ) {
	std::vector<Args*> add;
	bool odd = p.cfg.count( "links" ) || p.cfg.count( "overlap" );
	auto visit = [&]( Args& o ) {
		if ( o[0] == "add" )
			add.push_back( &o );
		odd |= o[0] == "rmraw" || o[0] == "symlink" || o[0] == "mount" || o[0] == "setfs";
	};
	for ( auto& o : p.init )
		visit( o );
	for ( auto& ph : p.phases )
		for ( auto& o : ph.ops )
			visit( o.a );
	for ( auto& c : p.cbs )
		visit( c.a );
	std::set<std::string> paths;
	for ( auto* o : add )
		paths.insert( ( *o )[3] );
	if ( odd || paths.size() != 1 || add[0]->size() < 6 || ( *add[0] )[5] != "r" )
		return false;
	for ( auto* o : add )
		( *o )[3] = "/";
	p.cfg["refusals"] = "1";
	return true;
}

Plan generate( const std::string& prop, u64 seed ) {
	Gen g( seed );
	g.p.property = prop;
	for ( auto& t : table )
		if ( prop == t.id ) {
			Plan p = t.gen( g );
			if ( g.r.chance( 0.02 ) )
				wide( g, p );
			if ( !g.r.chance( 0.02 ) || !rootWatch( p ) )
				if ( g.r.chance( 0.05 ) )
					spelling( g, p );
			if ( g.r.chance( 0.4 ) )
				p.cfg["probepart"] = S( g.r.range( 1, 1000 ) );
			/// A process without standard input, or with many open files
			if ( !p.cfg.count( "fdbase" ) && g.r.chance( 0.07 ) )
				p.cfg["fdbase"] = S( g.r.pick( std::vector<int>{ 0, 0, 0, 2, 60, 1023 } ) );
			/// A process, a system and a file system that have been in use for a long time
			if ( g.r.chance( 0.08 ) )
				p.cfg["idbase"] = g.r.pick( Args{ "250", "65530", "70000", "2000000000", "4294967290" } );
			if ( g.r.chance( 0.08 ) )
				p.cfg["inodehigh"] = "1";
			return p;
		}
	return g.p;
}
