// Executes a plan against the real library inside the simulator and judges the history.
#include "plan.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <efsw/efsw.h>
#include <efsw/efsw.hpp>
#include <errno.h>
#include <functional>
#include <memory>
#include <set>
#include <sys/inotify.h>
#include <system_error>

using namespace rt;

namespace {

typedef std::vector<std::string> Args;

struct CbEv {
	u64 seq0 = 0, seq1 = 0;
	i64 t = 0;
	std::string listener, w;
	long id = 0;
	std::string dir, file, old;
	int action = 0;
	bool missed = false;
	int fiber = 0;
	int phase = 0;
	int fn = 0;	 // which of the registered C functions was called; 0: C++
};
struct Listener;
struct Watcher {
	std::string name;
	bool generic = false;
	bool capi = false;
	int pollMs = 1000;
	efsw::FileWatcher* p = nullptr;
	efsw_watcher c = nullptr;
	bool alive = false;
	bool watching = false;
	bool fallback = false;
	bool dying = false;
	int inst = 0;
	u64 deadSeq = 0;
	i64 watchT = 0;
	bool watchCalled = false;  // watch() has been entered
	int started = 0;		   // successful calls of watch()
	bool follow = false, oos = false;
	bool everOut = false;  // links out of scope were followed at some time
};
struct Slot {
	std::string name, w, path, listener;
	std::string label;	// directory string expected in callbacks, ends with /
	std::string root;	// absolute path, no trailing slash
	bool rec = false, syn = false;
	long id = 0;
	bool done = false;	 // addWatch returned
	bool ok = false;
	bool removing = false, removed = false;
	bool vague = false;	 // removed while its watcher was being destroyed, or overlapped
	bool noMissed = false;	// C interface without a missed-events function
	int fn = 0;
	u64 rootGen = 0;	// inode generation of the root when the watch was added
	u64 addSeq0 = 0, addSeq = 0, rmSeq = 0;
	int err = 0;
	// mirror
	std::set<std::string> view;
	std::set<std::string> maybe;	// names whose state the watch may or may not know about
	std::map<std::string, u64> strictDirs;	// path -> gen at the start of the window
	std::map<std::string, kern::Entry> before;	// the tree at the start of the window
	bool synced = false;
};
struct ApiRec {
	u64 s0, s1;
	std::string actor, op, key, w;
	long res = 0;
	std::vector<std::string> list;
};

Plan plan;
std::map<std::string, Watcher> W;
std::map<std::string, Listener*> L;
std::vector<Slot*> S;
std::vector<CbEv> cbs;
std::vector<ApiRec> apis;
std::map<std::string, int> handles;
int phaseNo = -1;
size_t winCb = 0, winFs = 0, winRaw = 0;
std::map<int, std::vector<long>> inCb;	// fiber -> ids of callbacks in progress
bool alone = false;  // the phase has a single actor
int inFlight = 0;		  // API calls in progress
u64 settledAt = 0;		  // kern::mutationSeq() when everything was quiet for the last time
int gapOps = 0;			// tree changes of this window
bool inGap = true;		// they all happened while the library's threads were asleep,
u64 gapSys = 0;			// without a system call of the library between them
std::string curActor[MAXF];
std::string expectCwd = "/";
std::set<u64> dangling;	// symbolic links that led to no directory when they were made
std::set<std::string> linked;  // directories that a symbolic link ever pointed to
std::set<u64> linkedGens;	   // the same, whatever their names are now

Slot* slotNamed( const std::string& n ) {
	for ( auto* s : S )
		if ( s->name == n )
			return s;
	return nullptr;
}
Slot* slotOf( const std::string& w, long id ) {
	for ( size_t i = S.size(); i-- > 0; )
		if ( S[i]->w == w && S[i]->ok && S[i]->id == id )
			return S[i];
	return nullptr;
}
bool isAlive( Slot* s ) { return s->ok && !s->removed && !s->removing && W[s->w].alive; }

void execOp( const std::string& actor, const Args& a );
void settle( const char* what );

const char* actName( int a ) {
	static const char* n[] = { "?", "Add", "Delete", "Modified", "Moved" };
	return a >= 1 && a <= 4 ? n[a] : "?";
}

void onEvent( Listener* l, const std::string& w, long id, const std::string* dirp,
			  const std::string* filep, int action, const std::string* oldp, const char* cdir,
			  bool missed, int fn = 0 );

struct Listener : efsw::FileWatchListener {
	std::string name, w;
	int n = 0;
	void handleFileAction( efsw::WatchID id, const std::string& dir, const std::string& file,
						   efsw::Action action, const std::string& old ) override {
		LeaveEfsw lv;
		onEvent( this, owner( id, dir ), id, &dir, &file, action, &old, nullptr, false );
	}
	void handleMissedFileActions( efsw::WatchID id, const std::string& dir ) override {
		LeaveEfsw lv;
		onEvent( this, owner( id, dir ), id, &dir, nullptr, 0, nullptr, nullptr, true );
	}
	// the watcher that called: known by the directory where several watchers share the listener
	std::string owner( long id, const std::string& dir ) {
		if ( !w.empty() )
			return w;
		for ( int pass = 0; pass < 2; pass++ )
			for ( size_t i = S.size(); i-- > 0; ) {
				Slot* s = S[i];
				if ( s->listener == name && ( pass ? !s->done : s->ok && s->id == id ) &&
					 dir.compare( 0, s->label.size(), s->label.c_str() ) == 0 )
					return s->w;
			}
		violation( "unknown-watch-id", "a callback carried watch id " + std::to_string( id ) +
										   " and directory " + std::string( dir.c_str() ) +
										   ", no watch of this listener has both" );
		return "";
	}
};

void cEvent( int fn, efsw_watcher watcher, efsw_watchid id, const char* dir, const char* file,
			 enum efsw_action action, const char* old, void* param ) {
	LeaveEfsw lv;
	Listener* l = nullptr;
	for ( auto& x : L )
		if ( x.second == param )
			l = x.second;
	if ( !l )
		violation( "capi-param", "C callback received a parameter nobody registered" );
	for ( auto& w : W )
		if ( w.second.c == watcher && w.second.capi &&
			 ( l->w.empty() || w.second.name == l->w ) ) {
			std::string d( dir ), f( file ), o( old );
			onEvent( l, w.first, id, &d, &f, (int)action, &o, dir, false, fn );
			return;
		}
	violation( "capi-watcher", "C callback received watcher handle " +
								   std::to_string( (long)( watcher != nullptr ) ) +
								   " which is not the one it was registered with" );
}
void cCallback( efsw_watcher watcher, efsw_watchid id, const char* dir, const char* file,
				enum efsw_action action, const char* old, void* param ) {
	cEvent( 1, watcher, id, dir, file, action, old, param );
}
void cCallback2( efsw_watcher watcher, efsw_watchid id, const char* dir, const char* file,
				 enum efsw_action action, const char* old, void* param ) {
	cEvent( 2, watcher, id, dir, file, action, old, param );
}
void cMissedEvent( int fn, efsw_watcher watcher, efsw_watchid id, const char* dir ) {
	LeaveEfsw lv;
	for ( auto& w : W )
		if ( w.second.c == watcher && w.second.capi ) {
			// also a watch whose addWatch has not returned yet
			for ( int pass = 0; pass < 2; pass++ )
				for ( size_t i = S.size(); i-- > 0; ) {
					Slot* s = S[i];
					if ( s->w == w.first && ( pass ? !s->done : s->ok && s->id == id ) ) {
						std::string d( dir );
						onEvent( L[s->listener], w.first, id, &d, nullptr, 0, nullptr, dir, true,
								 fn );
						return;
					}
				}
		}
	violation( "capi-watcher", "C missed-actions callback for an unknown watcher or watch" );
}
void cMissed( efsw_watcher watcher, efsw_watchid id, const char* dir ) {
	cMissedEvent( 1, watcher, id, dir );
}
void cMissed2( efsw_watcher watcher, efsw_watchid id, const char* dir ) {
	cMissedEvent( 2, watcher, id, dir );
}

void onEvent( Listener* l, const std::string& w, long id, const std::string* dirp,
			  const std::string* filep, int action, const std::string* oldp, const char* cdir,
			  bool missed, int fn ) {
	auto chk = [&]( const std::string* s ) {
		if ( !s )
			return;
		touch( s, sizeof *s, false );
		if ( s->size() )
			touch( s->data(), s->size() + 1, false );
	};
	chk( dirp );
	chk( filep );
	chk( oldp );
	stats().callbacks++;
	CbEv e;
	e.listener = l->name;
	e.w = w;
	e.id = id;
	e.dir = *dirp;
	if ( filep )
		e.file = *filep;
	if ( oldp )
		e.old = *oldp;
	e.action = action;
	e.missed = missed;
	e.fn = fn;
	e.t = now( CLK_MONO );
	e.fiber = self();
	e.phase = phaseNo;
	e.seq0 = seq();
	logf( "callback %s id=%ld %s%s %s%s%s", l->name.c_str(), id, e.dir.c_str(), e.file.c_str(),
		  missed ? "MISSED" : actName( action ), e.old.empty() ? "" : " from ", e.old.c_str() );
	size_t idx = cbs.size();
	cbs.push_back( e );
	Watcher& wt = W[w];
	if ( !wt.alive && wt.deadSeq )
		violation( "callback-after-destroy",
				   "a callback started after the watcher was destroyed: " + e.dir + e.file );
	if ( !wt.watchCalled )
		violation( "callback-before-watch", "a callback ran before watch() was called: " + e.dir +
												e.file );
	for ( auto* s : S )
		if ( s->w == w && s->removed && s->id == id && s->ok && !s->vague )
			violation( "callback-after-remove",
					   "a callback started after removeWatch(" + std::to_string( id ) +
						   ") had returned: " + e.dir + e.file + " " + actName( action ) );
	// well-formedness
	if ( !missed ) {
		if ( action < 1 || action > 4 )
			violation( "bad-event", "unknown action " + std::to_string( action ) );
		if ( e.file.empty() || e.file.find( '/' ) != std::string::npos )
			violation( "bad-event", "file name is not a single path component: '" + e.file + "'" );
		if ( e.dir.empty() || e.dir.back() != '/' )
			violation( "bad-event", "directory does not end with a slash: '" + e.dir + "'" );
		if ( ( action == efsw::Actions::Moved ) != !e.old.empty() )
			violation( "bad-event", std::string( "old name '" ) + e.old + "' with action " +
										actName( action ) );
		if ( e.old.find( '/' ) != std::string::npos )
			violation( "bad-event", "old file name is not a single component: " + e.old );
	}
	inCb[self()].push_back( id );
	point( P_USER );
	l->n++;
	bool scripted = false;
	for ( auto& c : plan.cbs )
		if ( c.listener == l->name && c.nth == l->n ) {
			scripted = true;
			probe( "op-inside-callback" );
			execOp( "cb:" + l->name, c.a );
		}
	if ( scripted ) {
		// the arguments must stay valid for the whole callback
		chk( dirp );
		chk( filep );
		chk( oldp );
		if ( *dirp != e.dir || ( filep && *filep != e.file ) || ( oldp && *oldp != e.old ) ||
			 ( cdir && e.dir != cdir ) )
			violation( "callback-args-changed", "callback arguments changed while it was running" );
	}
	inCb[self()].pop_back();
	cbs[idx].seq1 = seq();
}

void checkCwd() {
	if ( kern::cwdPath() != expectCwd )
		violation( "working-directory", "the working directory of the process is " +
											kern::cwdPath() + ", it was " + expectCwd );
}
struct ApiCall {
	ApiRec r;
	ApiCall( const std::string& actor, const std::string& op, const std::string& key,
			 const std::string& w ) {
		r.actor = actor;
		r.op = op;
		r.key = key;
		r.w = w;
		logf( "api %s %s %s begin", op.c_str(), w.c_str(), key.c_str() );
		r.s0 = seq();
		r.s1 = 0;
		inFlight++;
		apiBegin( r.op == "add" ? "addWatch" : r.op == "del" ? "~FileWatcher"
									: r.op == "watch"		  ? "watch"
									: r.op == "dirs"		  ? "directories"
									: r.op == "new"			  ? "FileWatcher"
															  : "removeWatch" );
	}
	void end() {
		apiEnd();
		inFlight--;
		checkCwd();
		r.s1 = seq();
		logf( "api %s %s %s -> %ld", r.op.c_str(), r.w.c_str(), r.key.c_str(), r.res );
		apis.push_back( r );
	}
};

std::string absPath( const std::string& p ) {
	std::string r = p;
	if ( r.empty() || r[0] != '/' ) {
		std::string c = kern::cwdPath();
		r = ( c == "/" ? "" : c ) + "/" + p;
	}
	while ( r.size() > 1 && r.back() == '/' )
		r.pop_back();
	return r;
}
// the same path without "//", "." and ".." (no links involved)
std::string canonical( const std::string& p ) {
	std::vector<std::string> v;
	std::string a = absPath( p ) + "/", c;
	for ( char ch : a ) {
		if ( ch != '/' ) {
			c += ch;
			continue;
		}
		if ( c == ".." ) {
			if ( !v.empty() )
				v.pop_back();
		} else if ( !c.empty() && c != "." )
			v.push_back( c );
		c.clear();
	}
	std::string r;
	for ( auto& x : v )
		r += "/" + x;
	return r.empty() ? "/" : r;
}
std::string slashed( std::string p ) {
	if ( !p.empty() && p.back() != '/' )
		p += '/';
	return p;
}

Listener* listener( const std::string& n, const std::string& w ) {
	auto it = L.find( n );
	if ( it != L.end() )
		return it->second;
	Listener* l = new Listener;
	l->name = n;
	l->w = n.compare( 0, 2, "LS" ) ? w : "";  // LS: shared by several watchers
	L[n] = l;
	return l;
}

bool selfInCb( long id ) {
	for ( long x : inCb[self()] )
		if ( x == id )
			return true;
	return false;
}
void checkNoneRunning( const std::string& w, long id, const char* what ) {
	for ( auto& kv : inCb ) {
		if ( kv.first == self() )
			continue;
		for ( long x : kv.second )
			if ( x == id || id < 0 ) {
				// only callbacks of this watcher count
				bool mine = false;
				for ( size_t i = cbs.size(); i-- > 0; )
					if ( !cbs[i].seq1 && cbs[i].fiber == kv.first && cbs[i].w == w )
						mine = true;
				if ( mine )
					violation( "callback-in-progress",
							   std::string( what ) + " returned while a callback for watch " +
								   std::to_string( x ) + " was still running on another thread" );
			}
	}
}

// ---------------------------------------------------------------- plan operations
int apiErrors = 0;

// every value but 0 stands for true
int truth( bool v ) {
	static const int vals[] = { 1, 2, -1, 1, 256 };
	static int n = 0;
	return v ? vals[n++ % 5] : 0;
}
void opNew( const std::string& actor, const Args& a ) {
	auto old = W.find( a[1] );
	if ( old != W.end() && old->second.alive )
		return;
	if ( old != W.end() && old->second.deadSeq ) {
		// the name is used again: keep the history of the first one under another name
		std::string n = a[1];
		for ( int k = 0; k < 99 && W.count( n ); k++ )
			n = a[1] + "~" + std::to_string( k );
		for ( auto* s : S )
			if ( s->w == a[1] ) {
				s->w = n;
				s->name += "~";
			}
		for ( auto& c : cbs )
			if ( c.w == a[1] )
				c.w = n;
		for ( auto& r : apis )
			if ( r.w == a[1] )
				r.w = n;
		W[n] = old->second;
		W[n].c = nullptr;
		W[a[1]] = Watcher();
	}
	Watcher& w = W[a[1]];
	w.name = a[1];
	w.generic = a[2] == "generic";
	w.pollMs = w.generic ? 1000 : 500;
	bool setPoll = false;
	for ( size_t i = 3; i < a.size(); i++ ) {
		if ( a[i] == "capi" )
			w.capi = true;
		if ( a[i].compare( 0, 5, "poll=" ) == 0 && !w.capi ) {
			w.pollMs = atoi( a[i].c_str() + 5 );
			setPoll = true;
		}
	}
	if ( w.capi )
		w.pollMs = w.generic ? 1000 : 500;
	ApiCall c( actor, "new", a[2], a[1] );
	int before = kern::lastInstance( self() );
	auto faults0 = counters().fault;
	{
		EnterEfsw e;
		if ( w.capi )
			w.c = efsw_create( truth( w.generic ) );
		else if ( setPoll )
			w.p = new efsw::FileWatcher( w.generic, (unsigned)w.pollMs );
		else if ( w.generic )
			w.p = new efsw::FileWatcher( true );
		else
			w.p = new efsw::FileWatcher();
	}
	w.alive = true;
	w.watching = false;
	w.deadSeq = 0;
	w.inst = kern::lastInstance( self() );
	if ( !w.generic && w.inst == before ) {
		w.fallback = true;
		probe( "fell-back-to-polling" );
		if ( counters().fault == faults0 )
			violation( "unexpected-fallback",
					   "a default watcher polls although inotify could be initialised" );
	}
	c.end();
}
bool polled( const Watcher& w ) { return w.generic || w.fallback; }

std::vector<std::string> opDirs( const std::string& actor, const std::string& wn );
bool pendingQueue();
bool isRemote( kern::Inode* n );
bool under( const std::string& p, const std::string& dir );
std::string parentOf( const std::string& p );

// what addWatch has to answer when nothing else happens meanwhile
struct Predicted {
	std::set<int> must;	 // reasons that make success impossible
	std::set<int> may;	 // reasons that could be given
	std::string str() {
		std::string m;
		for ( int e : must )
			m += " " + std::to_string( e );
		if ( must.empty() )
			m = " success";
		for ( int e : may )
			m += " (" + std::to_string( e ) + ")";
		return m;
	}
};
Predicted predictAdd( const Watcher& w, Slot* s, const std::string& text ) {
	using namespace efsw::Errors;
	Predicted p;
	bool poll = polled( w );
	kern::Inode* n = text.empty() ? nullptr : kern::lookup( absPath( text ) );
	/// "/w/p/.." needs the permission to search /w/p
	if ( n && !kern::reachable( absPath( text ) ) ) {
		n = nullptr;
		probe( "unreachable-path" );
	}
	if ( !n || n->type != kern::DIR_ ) {
		p.must.insert( FileNotFound );
		if ( n && !poll && isRemote( n ) )
			p.may.insert( FileRemote );
		return p;
	}
	if ( !kern::readable( n ) )
		p.must.insert( FileNotReadable );
	if ( !poll && isRemote( n ) )
		p.must.insert( FileRemote );
	std::string label = slashed( text );
	kern::Inode* ln = kern::lookup( absPath( text ), false );
	if ( ln && ln->type == kern::LNK ) {
		label = slashed( kern::pathOf( n ) );
		std::string t = text;
		while ( t.size() > 1 && t.back() == '/' )
			t.pop_back();
		std::string cur = t.find( '/' ) == std::string::npos ? t : t.substr( 0, t.rfind( '/' ) + 1 );
		kern::Inode* up = kern::lookup( parentOf( absPath( text ) ) );
		std::string curReal = slashed( up ? kern::pathOf( up ) : "" );
		bool in1 = label.compare( 0, cur.size(), cur ) == 0;
		bool in2 = label.compare( 0, curReal.size(), curReal ) == 0;
		if ( !( w.follow && w.oos ) ) {
			if ( !in1 && !in2 )
				p.must.insert( FileOutOfScope );
			else if ( in1 != in2 )
				p.may.insert( FileOutOfScope );
		}
	}
	for ( auto* o : S )
		if ( o != s && o->w == s->w && isAlive( o ) ) {
			if ( o->label == label || o->label == slashed( text ) ||
				 ( !poll && o->rootGen == n->gen ) )
				p.must.insert( FileRepeated );
			else if ( poll && kern::lookup( o->root ) == n )
				( counters().fault.empty() ? p.must : p.may ).insert( FileRepeated );
			else if ( poll && o->rec )
				p.may.insert( FileRepeated );
		}
	if ( (int)kern::cfg.maxWatches <= kern::watchCount() + 1000 )
		p.may.insert( Unspecified );
	return p;
}

void opAdd( const std::string& actor, Args a ) {
	if ( a[3] == "@empty" )
		a[3] = "";
	// add W S path L r|n [syn] [fn2]
	Watcher& w = W[a[1]];
	if ( !w.alive )
		return;
	Slot* s = slotNamed( a[2] );
	if ( s && s->ok && !s->removed )
		return;
	s = new Slot;
	S.push_back( s );
	for ( size_t i = 0; i + 1 < S.size(); i++ )
		if ( S[i]->name == a[2] )
			S[i]->name += "'";
	s->name = a[2];
	s->w = a[1];
	s->path = a[3];
	s->listener = a[4];
	s->rec = a[5] == "r";
	bool fn2 = false;
	int otherOpt = 0, synOff = 0;
	for ( size_t i = 6; i < a.size(); i++ ) {
		if ( a[i] == "syn0" )
			synOff = 1;
		if ( a[i] == "syn" )
			s->syn = true;
		if ( a[i] == "fn2" )
			fn2 = true;
		if ( a[i] == "opts" )
			otherOpt = 1;
		if ( a[i] == "nomiss" )
			s->noMissed = true;
	}
	if ( w.capi ) {
		s->fn = fn2 ? 2 : 1;
		if ( !plan.num( "capiopts", 1 ) )
			s->noMissed = true;
	}
	s->label = slashed( a[3] );
	s->root = absPath( a[3] );
	kern::Inode* ln = kern::lookup( s->root, false );
	kern::Inode* goal = kern::lookup( s->root );
	if ( goal && goal->type == kern::DIR_ ) {
		s->root = kern::pathOf( goal );
		if ( ln && ln->type == kern::LNK )
			s->label = slashed( s->root );
		if ( s->root == "/" )
			s->root = "";	// what is below it is s->root + "/..."
	} else if ( !goal )
		s->root = canonical( a[3] );
	Listener* l = listener( a[4], a[1] );
	auto genOf = [&]() -> u64 {
		kern::Inode* n = kern::lookup( s->root );
		return n ? n->gen : 0;
	};
	// judged exactly only when nothing else is going on
	bool judge = plan.num( "refusals", 0 ) && alone && !inFlight && !pendingQueue() &&
				 settledAt == kern::mutationSeq();
	Predicted want;
	std::vector<std::string> dirs0;
	int fds0 = 0, watches0 = 0;
	size_t apis0 = 0;
	auto faults0 = counters().fault;
	bool scanning = false;
	for ( auto& x : W )
		scanning |= x.second.alive && x.second.watching && polled( x.second );
	auto countFds = [&] {
		std::vector<std::string> d;
		kern::openFds( &d );
		int k = 0;
		for ( auto& f : d )
			k += !scanning || f.compare( 0, 3, "dir" ) != 0;
		return k;
	};
	if ( judge ) {
		want = predictAdd( w, s, a[3] );
		dirs0 = opDirs( actor, a[1] );
		std::sort( dirs0.begin(), dirs0.end() );
		fds0 = countFds();
		watches0 = kern::watchCount();
		apis0 = apis.size();
	}
	u64 gen0 = genOf();
	ApiCall c( actor, "add", s->path, a[1] );
	s->addSeq0 = c.r.s0;
	long id;
	{
		EnterEfsw e;
		if ( w.capi ) {
// an option of other systems, before or after the one that counts
			bool late = otherOpt && truth( 1 ) == 2;
			efsw_watcher_option o[3];
			int n = 0;
			auto other = [&] {
				o[n].option = EFSW_OPT_WIN_BUFFER_SIZE;
				o[n++].value = 4096;
			};
			if ( otherOpt && !late )
				other();
			if ( s->syn || synOff ) {
				o[n].option = EFSW_LINUX_PRODUCE_SYNTHETIC_EVENTS;
				o[n++].value = truth( s->syn );
			}
			if ( late )
				other();
			if ( n || ( plan.num( "capiopts", 1 ) && !s->noMissed ) )
				id = efsw_addwatch_withoptions(
					w.c, a[3].c_str(), fn2 ? cCallback2 : cCallback, truth( s->rec ),
					n ? o : nullptr, n, l, s->noMissed ? nullptr : fn2 ? cMissed2 : cMissed );
			else
				id = efsw_addwatch( w.c, a[3].c_str(), fn2 ? cCallback2 : cCallback, truth( s->rec ), l );
		} else {
			bool late = otherOpt && truth( 1 ) == 2;
			std::vector<efsw::WatcherOption> o;
			if ( otherOpt && !late )
				o.push_back( efsw::WatcherOption( efsw::Options::WinBufferSize, 4096 ) );
			if ( s->syn || synOff )
				o.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents,
												  truth( s->syn ) ) );
			if ( late )
				o.push_back( efsw::WatcherOption( efsw::Options::WinBufferSize, 4096 ) );
			if ( o.empty() && !s->rec && truth( 1 ) == 1 )
				id = w.p->addWatch( a[3], l );
			else if ( o.empty() )
				id = w.p->addWatch( a[3], l, s->rec );
			else
				id = w.p->addWatch( a[3], l, s->rec, o );
		}
	}
	c.r.res = id;
	s->done = true;
	s->id = id;
	// 0 (not known) when the root was replaced during the call
	s->rootGen = genOf() == gen0 ? gen0 : 0;
	if ( id > 0 ) {
		for ( auto* o : S )
			if ( o != s && o->w == s->w && o->ok && !o->removed && o->id == id && W[o->w].alive &&
				 !plan.num( "overlap", 0 ) )
				violation( "duplicate-watch-id",
						   "addWatch returned id " + std::to_string( id ) + " for " + s->path +
							   " while it still identifies " + o->path );
		s->ok = true;
	} else {
		s->err = (int)id;
		apiErrors++;
		if ( id == 0 || id < -7 )
			violation( "bad-result", "addWatch returned " + std::to_string( id ) );
	}
	c.end();
	s->addSeq = c.r.s1;
	bool faulted = counters().fault != faults0;
	if ( faulted && id > 0 && s->label != slashed( a[3] ) && plan.num( "refusals", 0 ) ) {
		// the link could not be followed: watched under its own name
		long k = 0;
		for ( auto& d : opDirs( actor, a[1] ) )
			k += d == slashed( a[3] );
		for ( auto* o : S )
			k -= o != s && o->w == s->w && isAlive( o ) && o->label == slashed( a[3] );
		if ( k > 0 )
			s->label = slashed( a[3] );
		if ( !w.capi )
			apis.pop_back();
	}
	if ( !judge || settledAt != kern::mutationSeq() || apis.size() != apis0 + 1 || inFlight ||
		 pendingQueue() )
		return;
	std::string call = "addWatch(" + a[3] + ") returned " + std::to_string( id );
	if ( !faulted ) {
		probe( id > 0 ? "success-decided" : "refusal-decided" );
		bool fine = id > 0 ? want.must.empty()
						   : want.must.count( (int)id ) || want.may.count( (int)id );
		if ( !fine )
			violation( "wrong-result", call + ", expected:" + want.str() );
	} else {
		probe( "call-with-fault-decided" );
		bool onlyAdd = want.must.empty();
		for ( auto& f : counters().fault )
			if ( !faults0.count( f.first ) || faults0.at( f.first ) != f.second )
				onlyAdd &= ( f.first.compare( 0, 18, "inotify_add_watch:" ) == 0 ||
							 f.first.compare( 0, 12, "watch-limit:" ) == 0 ) &&
						   f.first.find( "ENOENT" ) == std::string::npos;
		// the directory is there and fine, but the system has no watch for it
		if ( onlyAdd && id < 0 && id != efsw::Errors::Unspecified &&
			 id != efsw::Errors::FileNotReadable && id != efsw::Errors::WatcherFailed &&
			 !want.may.count( (int)id ) )
			violation( "wrong-result", call + ", but only the system's watch failed" );
	}
	probe( "decided" );
	if ( id > 0 )
		return;
	int code;
	std::string text;
	{
		EnterEfsw e;
		code = efsw::Errors::Log::getLastErrorCode();
		std::string t = w.capi ? std::string( efsw_getlasterror() )
							   : efsw::Errors::Log::getLastErrorLog();
		LeaveEfsw lv;
		text = std::string( t.data(), t.size() );
	}
	if ( code != id )
		violation( "last-error", call + " but the last error code is " + std::to_string( code ) );
	std::string bare = a[3];
	while ( !bare.empty() && bare.back() == '/' )
		bare.pop_back();
	if ( ( text.empty() && !a[3].empty() ) ||
		 ( id != efsw::Errors::Unspecified && text.find( bare ) == std::string::npos &&
		   text.find( s->label ) == std::string::npos ) )
		violation( "last-error", call + " but the text of the last error is '" + text + "'" );
	// each kind of failure has a text of its own
	static std::map<int, std::string> texts;
	if ( !bare.empty() && id != efsw::Errors::Unspecified && id != efsw::Errors::FileNotReadable ) {
		std::string t = text, label = s->label;
		while ( !label.empty() && label.back() == '/' )
			label.pop_back();
		for ( const std::string& p : { bare, label } ) {
			size_t at = p.empty() ? std::string::npos : t.find( p );
			if ( at != std::string::npos )
				t.replace( at, p.size() + ( t.compare( at + p.size(), 1, "/" ) == 0 ), "%" );
		}
		for ( auto& o : texts )
			if ( o.first != id && o.second == t )
				violation( "last-error", call + " but the text of the last error, '" + text +
											 "', is the one of error " + std::to_string( o.first ) );
		texts[(int)id] = t;
	}
	std::vector<std::string> dirs1 = opDirs( actor, a[1] );
	std::sort( dirs1.begin(), dirs1.end() );
	if ( dirs1 != dirs0 )
		violation( "failed-add-effect", call + " but directories() changed" );
	if ( kern::watchCount() != watches0 )
		violation( "failed-add-effect", call + " but the kernel watches went from " +
											std::to_string( watches0 ) + " to " +
											std::to_string( kern::watchCount() ) );
	if ( countFds() != fds0 )
		violation( "failed-add-effect", call + " but the open descriptors went from " +
											std::to_string( fds0 ) + " to " +
											std::to_string( countFds() ) );
}

void finishRemove( Slot* s ) {
	s->removed = true;
	s->rmSeq = seq();
	if ( !selfInCb( s->id ) )
		checkNoneRunning( s->w, s->id, "removeWatch" );
}

void opRm( const std::string& actor, const Args& a, bool byPath ) {
	Watcher& w = W[a[1]];
	if ( !w.alive )
		return;
	Slot* s = slotNamed( a[2] );
	if ( !s || !s->ok || s->w != a[1] )
		return;
	if ( byPath && s->removed )
		return;
	s->removing = true;
	bool vague = w.dying || plan.num( "overlap", 0 );
	// a watch on a link is registered under the path the link leads to
	std::string path = slashed( s->path ) == s->label ? s->path : s->label;
	ApiCall c( actor, byPath ? "rmpath" : "rm", s->path, a[1] );
	c.r.res = s->id;
	{
		EnterEfsw e;
		if ( byPath ) {
			if ( w.capi )
				efsw_removewatch( w.c, path.c_str() );
			else
				w.p->removeWatch( path );
		} else {
			if ( w.capi )
				efsw_removewatch_byid( w.c, s->id );
			else
				w.p->removeWatch( s->id );
		}
	}
	if ( vague || w.dying )
		s->vague = true;
	finishRemove( s );
	c.end();
}
void opRmRaw( const std::string& actor, const Args& a ) {
	// rmraw W path|id : removal of something possibly never registered
	Watcher& w = W[a[1]];
	if ( !w.alive )
		return;
	bool byId = isdigit( a[2][0] ) || a[2][0] == '-';
	long id = byId ? atol( a[2].c_str() ) : 0;
	std::string path = a[2] == "@empty" ? "" : a[2];
	for ( auto s : S )	// only what is no watch of the user, and does not become one meanwhile
		if ( s->w == a[1] && !s->removed &&
			 ( !s->done || ( s->ok && ( byId ? s->id == id : s->label == slashed( path ) ||
															   slashed( s->path ) == slashed( path ) ) ) ) )
			return;
	probe( byId ? "stray-id-removed" : "stray-path-removed" );
	ApiCall c( actor, "rmraw", a[2], a[1] );
	EnterEfsw e;
	if ( byId ) {
		if ( w.capi )
			efsw_removewatch_byid( w.c, id );
		else
			w.p->removeWatch( id );
	} else {
		if ( w.capi )
			efsw_removewatch( w.c, path.c_str() );
		else
			w.p->removeWatch( path );
	}
	LeaveEfsw lv;
	c.end();
}
bool opWatch( const std::string& actor, const Args& a ) {
	Watcher& w = W[a[1]];
	if ( !w.alive )
		return false;
	ApiCall c( actor, "watch", "", a[1] );
	bool threw = false;
	w.watchCalled = true;
	try {
		EnterEfsw e;
		if ( w.capi )
			efsw_watch( w.c );
		else
			w.p->watch();
	} catch ( const std::system_error& ) {
		threw = true;
		probe( "watch-threw" );
	}
	c.r.res = threw ? -1 : 0;
	if ( !threw ) {
		if ( !w.watching )
			w.watchT = now( CLK_MONO );
		w.watching = true;
		w.started++;
	}
	c.end();
	return !threw;
}
std::vector<std::string> opDirs( const std::string& actor, const std::string& wn ) {
	Watcher& w = W[wn];
	std::vector<std::string> out;
	if ( !w.alive || w.capi )
		return out;
	ApiCall c( actor, "dirs", "", wn );
	{
		EnterEfsw e;
		std::vector<std::string> d = w.p->directories();
		LeaveEfsw lv;
		for ( auto& x : d )
			out.push_back( std::string( x.data(), x.size() ) );
	}
	c.r.list = out;
	c.r.res = (long)out.size();
	c.end();
	return out;
}
void opDel( const std::string& actor, const Args& a ) {
	Watcher& w = W[a[1]];
	if ( !w.alive )
		return;
	ApiCall c( actor, "del", "", a[1] );
	for ( auto* s : S )
		if ( s->w == a[1] )
			s->removing = true;
	w.dying = true;
	i64 t0 = now( CLK_MONO );
	{
		EnterEfsw e;
		if ( w.capi )
			efsw_release( w.c );
		else
			delete w.p;
	}
	i64 took = now( CLK_MONO ) - t0;
	w.alive = false;
	w.c = nullptr;
	w.deadSeq = seq();
	for ( auto* s : S )
		if ( s->w == a[1] && s->ok )
			s->removed = true;
	checkNoneRunning( a[1], -1, "the destructor" );
	c.end();
	i64 slack = plan.num( "slack_ms", 0 ) * MS;
	i64 lim = 2 * SEC + 2ll * w.pollMs * MS + slack;
	if ( took > lim )
		violation( "slow-destroy", "the destructor took " + std::to_string( took / MS ) +
									   " simulated ms" );
}

void expectErr( const char* what, int r ) {
	if ( r )
		logf( "fs %s: errno %d", what, r );
}

void execOp( const std::string& actor, const Args& a ) {
	checkCwd();
	const std::string& o = a[0];
	auto A = [&]( size_t i ) { return i < a.size() ? a[i] : std::string(); };
	auto N = [&]( size_t i, long d ) { return i < a.size() ? atol( a[i].c_str() ) : d; };
	point( P_USER );
	if ( o == "new" )
		opNew( actor, a );
	else if ( o == "add" )
		opAdd( actor, a );
	else if ( o == "rm" )
		opRm( actor, a, false );
	else if ( o == "rmpath" )
		opRm( actor, a, true );
	else if ( o == "rmraw" )
		opRmRaw( actor, a );
	else if ( o == "watch" )
		opWatch( actor, a );
	else if ( o == "dirs" )
		opDirs( actor, A( 1 ) );
	else if ( o == "del" )
		opDel( actor, a );
	else if ( o == "follow" || o == "oos" ) {
		Watcher& w = W[A( 1 )];
		if ( !w.alive )
			return;
		EnterEfsw e;
		int v = (int)N( 2, 1 );
		if ( w.capi ) {
			if ( o == "follow" )
				efsw_follow_symlinks( w.c, truth( v ) );
			else
				efsw_allow_outofscopelinks( w.c, truth( v ) );
			int g = o == "follow" ? efsw_follow_symlinks_isenabled( w.c )
								  : efsw_outofscopelinks_isallowed( w.c );
			if ( !plan.num( "race", 0 ) && ( g != 0 ) != ( v != 0 ) )
				violation( "option", "C API option getter disagrees with the setter" );
		} else {
			if ( o == "follow" )
				w.p->followSymlinks( v );
			else
				w.p->allowOutOfScopeLinks( v );
			bool g = o == "follow" ? w.p->followSymlinks() : w.p->allowOutOfScopeLinks();
			if ( !plan.num( "race", 0 ) && g != (bool)v )
				violation( "option", "option getter disagrees with the setter" );
		}
		( o == "follow" ? w.follow : w.oos ) = v;
		w.everOut |= w.follow && w.oos;
	} else if ( o == "lasterr" ) {
		if ( A( 1 ) == "c" ) {
			EnterEfsw e;
			const char* s = efsw_getlasterror();
			touch( s, strlen( s ) + 1, false );
		} else {
			EnterEfsw e;
			std::string s = efsw::Errors::Log::getLastErrorLog();
			(void)efsw::Errors::Log::getLastErrorCode();
		}
	} else if ( o == "clrerr" ) {
		bool judge = plan.num( "refusals", 0 ) && alone && !inFlight && !pendingQueue() &&
					 settledAt == kern::mutationSeq();
		{
			EnterEfsw e;
			if ( A( 1 ) == "c" )
				efsw_clearlasterror();
			else
				efsw::Errors::Log::clearLastError();
		}
		if ( judge && settledAt == kern::mutationSeq() && !inFlight && !pendingQueue() ) {
			EnterEfsw e;
			int code = efsw::Errors::Log::getLastErrorCode();
			bool text = *efsw_getlasterror() || !efsw::Errors::Log::getLastErrorLog().empty();
			LeaveEfsw lv;
			probe( "clear-decided" );
			if ( code || text )
				violation( "last-error", "the last error was cleared but its code is " +
											 std::to_string( code ) +
											 ( text ? " and it has a text" : "" ) );
		}
	} else if ( o == "settle" )
		settle( "op" );
	else if ( o == "sleep" )
		sleepFor( N( 1, 1 ) * MS );
	else if ( o == "usleep" )
		sleepFor( N( 1, 1 ) * 1000 );
	else if ( o == "clockjump" ) {
		jumpReal( N( 1, 0 ) * MS );
		faultFired( "wall-clock-jump" );
		logf( "wall clock jumps by %ld ms", N( 1, 0 ) );
	} else if ( o == "overflow" ) {
		kern::forceOverflow();
	} else if ( o == "waitcb" ) {
		Listener* l = L.count( A( 1 ) ) ? L[A( 1 )] : nullptr;
		int n = (int)N( 2, 1 );
		i64 dl = now( CLK_MONO ) + N( 3, 500 ) * MS;
		waitUntilOr( [l, n] { return l && l->n >= n; }, CLK_MONO, dl, "callbacks" );
	} else if ( o == "waitq" ) {
		waitUntilOr( [] { return kern::queuedEvents() == 0; }, CLK_MONO,
					 now( CLK_MONO ) + 500 * MS, "queue drained" );
	} else {
		int r = 0;
		if ( !gapOps++ )
			gapSys = stats().syscalls;
		inGap &= efswAsleep() && stats().syscalls == gapSys;
		struct Gap {
			~Gap() { inGap &= efswAsleep() && stats().syscalls == gapSys; }
		} gap;
		logf( "fs %s %s %s", o.c_str(), A( 1 ).c_str(), A( 2 ).c_str() );
		if ( o == "mkdir" )
			r = kern::hMkdir( A( 1 ), a.size() > 2 ? strtol( A( 2 ).c_str(), 0, 8 ) : 0755,
							   a.size() > 3 ? atoi( A( 3 ).c_str() ) : 1000 );
		else if ( o == "mkdirs" )
			r = kern::hMkdirs( A( 1 ) );
		else if ( o == "touch" )
			r = kern::hCreate( A( 1 ) );
		else if ( o == "write" )
			r = kern::hWrite( A( 1 ), (int)N( 2, 10 ), true, true );
		else if ( o == "append" )
			r = kern::hWrite( A( 1 ), (int)N( 2, 10 ), false, true );
		else if ( o == "trunc" )
			r = kern::hTruncate( A( 1 ), N( 2, 0 ) );
		else if ( o == "unlink" )
			r = kern::hUnlink( A( 1 ) );
		else if ( o == "rmdir" )
			r = kern::hRmdir( A( 1 ) );
		else if ( o == "rmrf" )
			r = kern::hRmRf( A( 1 ) );
		else if ( o == "mv" )
			r = kern::hRename( A( 1 ), A( 2 ) );
		else if ( o == "symlink" ) {
			r = kern::hSymlink( A( 1 ), A( 2 ) );
			kern::Inode* t = kern::lookup( A( 2 ) );
			if ( t && t->type == kern::DIR_ )
				linked.insert( kern::pathOf( t ) ), linkedGens.insert( t->gen );
			else if ( kern::Inode* l = r ? nullptr : kern::lookup( A( 2 ), false ) ) {
				dangling.insert( l->gen );
				std::string to = A( 1 ), at = parentOf( A( 2 ) );
				if ( to[0] != '/' ) {
					for ( ; to.compare( 0, 3, "../" ) == 0; to = to.substr( 3 ) )
						at = parentOf( at );
					to = at + "/" + to;
				}
				linked.insert( to );
			}
		}
		else if ( o == "link" )
			r = kern::hLink( A( 1 ), A( 2 ) );
		else if ( o == "fifo" )
			r = kern::hMkfifo( A( 1 ) );
		else if ( o == "over" )
			r = kern::hMount( A( 1 ) );
		else if ( o == "umount" )
			r = kern::hUmount( A( 1 ) );
		else if ( o == "chown" )
			r = kern::hChown( A( 1 ), atoi( A( 2 ).c_str() ) );
		else if ( o == "chmod" )
			r = kern::hChmod( A( 1 ), strtol( A( 2 ).c_str(), 0, 8 ) );
		else if ( o == "utime" )
			r = kern::hUtime( A( 1 ), now( CLK_REAL ) + N( 2, 0 ) * MS );
		else if ( o == "grow" || o == "replace" ) {
			// the size changes but not the time; another file of that size and time takes the place
			kern::Inode* f = kern::lookup( A( 1 ), false );
			if ( f && f->type == kern::REG ) {
				i64 t = f->mtime;
				std::string p = o == "grow" ? A( 1 ) : A( 2 );
				r = kern::hWrite( p, o == "grow" ? atoll( A( 2 ).c_str() ) : f->size, false, true );
				r = r ? r : kern::hUtime( p, t );
				if ( !r && o == "replace" )
					r = kern::hRename( p, A( 1 ) );
			}
		} else if ( o == "setfs" )
			r = kern::hSetFs( A( 1 ), strtol( A( 2 ).c_str(), 0, 16 ), a.size() > 3 );
		else if ( o == "mount" )
			kern::addMount( A( 1 ), A( 2 ) );
		else if ( o == "cd" ) {
			r = kern::hChdir( A( 1 ) );
			expectCwd = kern::cwdPath();
		}
		else if ( o == "open" ) {
			int h = kern::hOpen( A( 2 ), true );
			r = h < 0 ? -h : 0;
			handles[A( 1 )] = h;
		} else if ( o == "fwrite" )
			r = handles.count( A( 1 ) ) ? kern::hFdWrite( handles[A( 1 )], (int)N( 2, 7 ) ) : EBADF;
		else if ( o == "fclose" )
			r = handles.count( A( 1 ) ) ? kern::hFdClose( handles[A( 1 )] ) : EBADF;
		else {
			fprintf( stderr, "unknown op %s\n", o.c_str() );
			inconclusive( "unknown op " + o );
		}
		expectErr( o.c_str(), r );
	}
}

// ---------------------------------------------------------------- settling
i64 settleStep() {
	i64 s = 350 * MS;
	for ( auto& w : W )
		if ( w.second.alive && polled( w.second ) )
			s = std::max<i64>( s, 2ll * w.second.pollMs * MS + 300 * MS );
	return s + plan.num( "slack_ms", 0 ) * MS;
}
bool pendingQueue() {
	for ( auto& w : W )
		if ( w.second.alive && w.second.watching && !polled( w.second ) &&
			 kern::queuedEvents( w.second.inst ) )
			return true;
	return false;
}
void settle( const char* what ) {
	i64 t0 = now( CLK_MONO );
	for ( ;; ) {
		size_t n = cbs.size();
		u64 m = kern::mutationSeq();
		sleepFor( settleStep() );
		bool busy = false;
		for ( auto& kv : inCb )
			busy |= !kv.second.empty();
		if ( cbs.size() == n && kern::mutationSeq() == m && !busy &&
			 !pendingQueue() )
			break;
		if ( now( CLK_MONO ) - t0 > 120 * SEC + 10 * settleStep() )
			violation( "never-quiet", std::string( "after all activity stopped (" ) + what +
										  ") events were still pending or being reported" );
	}
	settledAt = kern::mutationSeq();
	logf( "settled (%s)", what );
}

// ---------------------------------------------------------------- mirror
bool under( const std::string& p, const std::string& dir ) {
	return p.size() > dir.size() && p.compare( 0, dir.size(), dir ) == 0 && p[dir.size()] == '/';
}
std::string parentOf( const std::string& p ) { return p.substr( 0, p.rfind( '/' ) ); }

// absolute path of an event's entry for a slot; empty when the label is foreign
std::string absOf( Slot* s, const std::string& dir, const std::string& file ) {
	if ( dir.compare( 0, s->label.size(), s->label ) != 0 )
		return "";
	std::string rest = dir.substr( s->label.size() );
	return s->root + "/" + rest + file;
}
bool reported( Slot* s, const kern::Entry& e ) {
	Watcher& w = W[s->w];
	if ( !s->rec && parentOf( e.path ) != s->root )
		return false;
	if ( polled( w ) )
		return e.type == kern::REG || e.type == kern::DIR_;
	return true;
}

// a native watch may have lost a directory that a failed call was about, and what is below it; a
// polling watch looks again
bool ignoreFaults = false;
// failed calls before the watch was added don't matter to it
bool hit( const std::map<u64, u64>& m, u64 gen, Slot* s ) {
	auto it = m.find( gen );
	return it != m.end() && it->second > s->addSeq0 && !ignoreFaults;
}
bool anyFaulted() { return !kern::faultedGens.empty() || !kern::unlistedGens.empty(); }
bool spoiled( Slot* s, kern::Inode* n ) {
	if ( !anyFaulted() || polled( W[s->w] ) )
		return false;
	for ( kern::Inode* x = n; x; x = x->parent == x ? nullptr : x->parent ) {
		if ( x != n && hit( kern::unlistedGens, x->gen, s ) )
			return true;
		if ( x->gen == s->rootGen )
			return false;
		if ( hit( kern::faultedGens, x->gen, s ) )
			return true;
	}
	return false;
}
bool spoiledName( Slot* s, const std::string& p ) {
	if ( !anyFaulted() || polled( W[s->w] ) )
		return false;
	for ( auto& r : kern::fslog )
		if ( r.type == kern::DIR_ &&
			 ( hit( kern::faultedGens, r.gen, s ) || hit( kern::unlistedGens, r.gen, s ) ) )
			for ( auto* q : { &r.path, &r.path2 } )
				if ( !q->empty() &&
					 p.find( q->substr( q->rfind( '/' ) ) + "/" ) != std::string::npos )
					return true;
	return false;
}

void strictCollect( Slot* s, const std::string& path, std::map<std::string, u64>& out ) {
	kern::Inode* n = kern::lookup( path, false );
	if ( !n || n->type != kern::DIR_ || spoiled( s, n ) )
		return;
	if ( !kern::readable( n ) )
		return;
	out[path] = n->gen;
	if ( s->rec )
		for ( auto& k : n->kids )
			if ( k.second->inode->type == kern::DIR_ && !isRemote( k.second->inode ) )
				strictCollect( s, path + "/" + k.first, out );
}
bool isRemote( kern::Inode* n ) {
	static const std::set<long> remote = {
		0x5346414F, 0x61756673, 0x00C36400, 0xFF534D42, 0xFE534D42, 0x73757245, 0x19830326,
		0x65735543, 0x01161970, 0x47504653, 0x6B414653, 0x0BD00BD0, 0x564C,		0x6969,
		0x6E667364, 0x7461636F, 0xAAD7AAEA, 0x50495045, 0x517B,		0xBEEFDEAD, 0xBACBACBC,
		0xA501FCF5 };
	if ( n->fstype != 0x65735546 )
		return remote.count( n->fstype );
	// FUSE: local when its mount point is known to the system
	kern::Inode* top = n;
	while ( top->parent && top->parent != top && top->parent->dev == top->dev )
		top = top->parent;
	return !kern::mounted( kern::pathOf( top ) );
}

void applyEvents( Slot* s, size_t from, std::set<std::string>& v );
// what may or may not be known keeps that state when its directory is renamed
void moveMaybe( Slot* s ) {
	for ( size_t i = winFs; i < kern::fslog.size(); i++ ) {
		auto& r = kern::fslog[i];
		if ( r.op != 'R' || r.path2.empty() )
			continue;
		std::vector<std::string> more;
		for ( auto& m : s->maybe )
			if ( m == r.path || under( m, r.path ) )
				more.push_back( r.path2 + m.substr( r.path.size() ) );
		s->maybe.insert( more.begin(), more.end() );
	}
}
void resync( Slot* s ) {
	moveMaybe( s );
	std::set<std::string> before;
	if ( s->synced && polled( W[s->w] ) ) {
		before = s->view;
		applyEvents( s, winCb, before );
	}
	s->view.clear();
	s->strictDirs.clear();
	std::set<std::string> oldMaybe;
	oldMaybe.swap( s->maybe );
	std::vector<kern::Entry> v;
	kern::listTree( s->root, v );
	s->before.clear();
	for ( auto& e : v )
		s->before[e.path] = e;
	for ( auto& e : v ) {
		if ( ( !s->synced || oldMaybe.count( e.path ) ) && !reported( s, e ) )
			s->maybe.insert( e.path );
		if ( reported( s, e ) || before.count( e.path ) )
			s->view.insert( e.path );
	}
	strictCollect( s, s->root, s->strictDirs );
	for ( auto& e : v )
		if ( !s->strictDirs.count( parentOf( e.path ) ) ) {
			s->maybe.insert( e.path );
			s->view.erase( e.path );
		}
	s->synced = true;
}
bool rootLost( Slot* s );
void resyncAll() {
	for ( auto* s : S )
		if ( isAlive( s ) && ( W[s->w].watching || phaseNo < 0 ) &&
			 !( rootLost( s ) && kern::lookup( s->root ) ) )
			resync( s );
		else
			s->synced = false;
	winCb = cbs.size();
	gapOps = 0;
	inGap = true;
	winFs = kern::fslog.size();
	winRaw = kern::raw.size();
}

void eraseTree( std::set<std::string>& v, const std::string& p ) {
	v.erase( p );
	auto it = v.lower_bound( p + "/" );
	while ( it != v.end() && under( *it, p ) )
		it = v.erase( it );
}
void moveTree( std::set<std::string>& v, const std::string& a, const std::string& b ) {
	std::vector<std::string> mv;
	auto it = v.lower_bound( a + "/" );
	while ( it != v.end() && under( *it, a ) ) {
		mv.push_back( *it );
		it = v.erase( it );
	}
	v.erase( a );
	eraseTree( v, b );
	v.insert( b );
	for ( auto& m : mv )
		v.insert( b + m.substr( a.size() ) );
}

// directories whose content the watch is not promised to know in this window
bool strictDir( Slot* s, const std::string& dir ) {
	kern::Inode* n = kern::lookup( dir, false );
	if ( !n || spoiled( s, n ) )
		return false;
	if ( !kern::readable( n ) )
		return false;
	// the same directory inode must have been covered at the start of the window
	bool was = false;
	for ( auto& kv : s->strictDirs )
		if ( kv.second == n->gen )
			was = true;
	if ( !was )
		return false;
	// and must not have travelled between directories meanwhile (nor its ancestors)
	std::set<u64> moved;
	for ( size_t i = winFs; i < kern::fslog.size(); i++ ) {
		auto& r = kern::fslog[i];
		if ( r.op == 'R' && r.type == kern::DIR_ && parentOf( r.path ) != parentOf( r.path2 ) )
			moved.insert( r.gen );
	}
	// a local rename whose two halves reached the library in different reads, or with other
	// events between them, may be reported as Delete followed by Add
	std::map<std::pair<int, u32>, std::pair<const kern::RawEvent*, const kern::RawEvent*>> halves;
	for ( size_t i = winRaw; i < kern::raw.size(); i++ ) {
		auto& r = kern::raw[i];
		if ( r.mask & IN_MOVED_FROM )
			halves[{ r.inst, r.cookie }].first = &r;
		else if ( r.mask & IN_MOVED_TO )
			halves[{ r.inst, r.cookie }].second = &r;
	}
	for ( auto& h : halves ) {
		auto *a = h.second.first, *b = h.second.second;
		if ( !a || !b || a->readId != b->readId || b->qn != a->qn + 1 )
			moved.insert( a ? a->gen : b->gen );
	}
	for ( kern::Inode* x = n; x && x->parent; x = x->parent )
		if ( moved.count( x->gen ) )
			return false;
	return true;
}
bool overflowed( Slot* s ) {
	for ( size_t i = winRaw; i < kern::raw.size(); i++ )
		if ( kern::raw[i].dropped && kern::raw[i].inst == W[s->w].inst )
			return true;
	return false;
}
// a native watch follows the directory, not the name: once the root was renamed away the two differ
bool rootLost( Slot* s ) {
	if ( polled( W[s->w] ) )
		return false;
	kern::Inode* n = kern::lookup( s->root );
	return !s->rootGen || !n || n->gen != s->rootGen;
}
bool rootRenamed( Slot* s ) {
	if ( polled( W[s->w] ) )
		return false;
	if ( !s->rootGen )
		return true;
	for ( auto& r : kern::fslog )
		if ( r.op == 'R' && r.seq > s->addSeq0 && r.type == kern::DIR_ &&
			 ( r.path == s->root || under( s->root, r.path ) ) )
			return true;
	return false;
}

void applyEvents( Slot* s, size_t from, std::set<std::string>& v ) {
	for ( size_t i = from; i < cbs.size(); i++ ) {
		CbEv& e = cbs[i];
		if ( e.w != s->w || e.id != s->id || e.missed )
			continue;
		std::string p = absOf( s, e.dir, e.file );
		if ( p.empty() )
			continue;
		switch ( e.action ) {
			case efsw::Actions::Add:
				v.insert( p );
				break;
			case efsw::Actions::Delete:
				eraseTree( v, p );
				break;
			case efsw::Actions::Moved:
				moveTree( v, absOf( s, e.dir, e.old ), p );
				break;
			default:
				break;
		}
	}
}

std::string eventsFor( Slot* s, const std::string& needle ) {
	std::string m;
	int n = 0;
	for ( size_t i = winCb; i < cbs.size(); i++ )
		if ( cbs[i].w == s->w && cbs[i].id == s->id ) {
			std::string line = cbs[i].dir + cbs[i].file;
			if ( needle.empty() || line.find( needle ) != std::string::npos ||
				 cbs[i].old == needle ) {
				m += "\n    " + std::string( actName( cbs[i].action ) ) + " " + line +
					 ( cbs[i].old.empty() ? "" : " (from " + cbs[i].old + ")" );
				if ( ++n > 15 )
					break;
			}
		}
	return m.empty() ? " (no events)" : m;
}
std::string base( const std::string& p ) { return p.substr( p.rfind( '/' ) + 1 ); }

bool watchable( Slot* s, kern::Inode* n, const std::string& path ) {
	return kern::readable( n ) && ( path == s->root || !isRemote( n ) );
}
void checkMirror( Slot* s ) {
	moveMaybe( s );
	if ( kern::fslog.size() > winFs )
		probe( "decided" );
	std::set<std::string> v = s->view;
	applyEvents( s, winCb, v );
	std::vector<kern::Entry> tree;
	kern::listTree( s->root, tree );
	std::map<std::string, kern::Entry> actual;
	for ( auto& e : tree )
		actual[e.path] = e;
	bool poll = polled( W[s->w] );
	for ( auto& p : v ) {
		auto it = actual.find( p );
		if ( s->maybe.count( p ) || ( it == actual.end() && spoiledName( s, p ) ) )
			continue;
		if ( it == actual.end() )
			violation( "mirror-phantom", "after settling, the reported events leave " + p +
											 " present in the watched tree, but it does not exist; "
											 "events naming it:" +
											 eventsFor( s, base( p ) ) );
		if ( poll && !( it->second.type == kern::REG || it->second.type == kern::DIR_ ) )
			continue;
	}
	bool lost = rootLost( s );
	for ( auto& e : tree ) {
		if ( lost || !reported( s, e ) || v.count( e.path ) || s->maybe.count( e.path ) )
			continue;
		bool must = poll;
		if ( !poll ) {
			must = strictDir( s, parentOf( e.path ) );
			if ( !must && s->syn && s->rec && ( e.type == kern::REG || e.type == kern::DIR_ ) ) {
				// synthetic events promise the content of new directories too
				kern::Inode* in = kern::lookup( parentOf( e.path ), false );
				must = !hit( kern::faultedGens, e.gen, s ) &&
					   !( in && hit( kern::unlistedGens, in->gen, s ) );
				for ( std::string d = parentOf( e.path ); d.size() >= s->root.size();
					  d = d.empty() ? "//" : parentOf( d ) ) {
					if ( d == "//" )
						break;
					kern::Inode* n = kern::lookup( d, false );
					if ( !n || !watchable( s, n, d ) || spoiled( s, n ) )
						must = false;
					// a directory renamed while it is scanned may be scanned in vain
					for ( size_t i = winFs; i < kern::fslog.size(); i++ )
						if ( kern::fslog[i].op == 'R' && n && kern::fslog[i].gen == n->gen )
							must = false;
				}
				if ( must )
					probe( "synthetic-coverage-decided" );
			}
		} else {
			for ( std::string d = parentOf( e.path ); d.size() >= s->root.size();
				  d = d.empty() ? "//" : parentOf( d ) ) {
				if ( d == "//" )
					break;
				kern::Inode* n = kern::lookup( d, false );
				if ( !n || !watchable( s, n, d ) )
					must = false;
			}
		}
		if ( must )
			violation( "mirror-missing", "after settling, " + e.path +
											 " exists in the watched tree but the reported events "
											 "leave it absent; events naming it:" +
											 eventsFor( s, base( e.path ) ) );
	}
}

// every content change of a file in a covered directory is followed by a Modified
bool dirDisturbed( const std::string& dir ) {
	for ( size_t i = winFs; i < kern::fslog.size(); i++ ) {
		auto& r = kern::fslog[i];
		if ( r.type != kern::DIR_ )
			continue;
		if ( r.path == dir || under( dir, r.path ) || r.path2 == dir ||
			 ( !r.path2.empty() && under( dir, r.path2 ) ) )
			return true;
	}
	return false;
}
bool inScope( Slot* s, const std::string& dir ) {
	return dir == s->root || ( s->rec && under( dir, s->root ) );
}
void checkModified( Slot* s ) {
	bool poll = polled( W[s->w] );
	for ( size_t i = winFs; i < kern::fslog.size(); i++ ) {
		auto& r = kern::fslog[i];
		if ( r.op != 'W' || r.type != kern::REG )
			continue;
		std::string dir = parentOf( r.path );
		if ( !inScope( s, dir ) || !s->strictDirs.count( dir ) || dirDisturbed( dir ) ||
			 !strictDir( s, dir ) )
			continue;
		if ( poll ) {
			// only a change that is visible in size or second-granular time can be required,
			// and only when the name was there before and is still the same file
			bool touchedName = false;
			for ( size_t j = winFs; j < kern::fslog.size(); j++ ) {
				auto& q = kern::fslog[j];
				if ( ( q.op == 'C' || q.op == 'D' || q.op == 'R' ) &&
					 ( q.path == r.path || q.path2 == r.path || q.gen == r.gen ) )
					touchedName = true;
			}
			if ( touchedName )
				continue;
			kern::Inode* n = kern::lookup( r.path, false );
			if ( !n || !s->view.count( r.path ) )
				continue;
			if ( plan.num( "strictmod", 0 ) == 0 )
				continue;
		}
		bool ok = false;
		for ( size_t k = winCb; k < cbs.size() && !ok; k++ ) {
			CbEv& e = cbs[k];
			if ( e.w == s->w && e.id == s->id && e.action == efsw::Actions::Modified &&
				 e.seq0 > r.seq && absOf( s, e.dir, e.file ) == r.path )
				ok = true;
		}
		if ( !ok )
			violation( "modified-missing", "the content of " + r.path +
											   " changed but no Modified event followed;" +
											   eventsFor( s, base( r.path ) ) );
	}
}

// ---------------------------------------------------------------- exact sequence per directory
struct Matcher {
	std::vector<kern::RawEvent> raw;
	std::vector<CbEv> got;
	size_t bestRaw = 0, bestGot = 0;
	int budget = 20000;
	std::map<u32, std::string> fromName;	 // cookie -> name (this directory)
	std::map<u32, std::string> toName;
	bool fits( size_t k, int action, const std::string& f, const std::string& old = "" ) {
		return k < got.size() && got[k].action == action && got[k].file == f && got[k].old == old;
	}
	bool run( size_t i, size_t k, std::set<u32> open ) {
		if ( --budget < 0 )
			return true;
		if ( i + k > bestRaw + bestGot ) {
			bestRaw = i;
			bestGot = k;
		}
		if ( i == raw.size() )
			return k == got.size() && open.empty();
		const kern::RawEvent& r = raw[i];
		using namespace efsw::Actions;
		if ( r.mask & IN_CREATE )
			return fits( k, Add, r.name ) && run( i + 1, k + 1, open );
		if ( r.mask & ( IN_MODIFY | IN_CLOSE_WRITE ) )
			return fits( k, Modified, r.name ) && run( i + 1, k + 1, open );
		if ( r.mask & IN_DELETE )
			return fits( k, Delete, r.name ) && run( i + 1, k + 1, open );
		if ( r.mask & IN_MOVED_FROM ) {
			// reported as Delete, unless its other half arrives in the same directory
			if ( fits( k, Delete, r.name ) && run( i + 1, k + 1, open ) )
				return true;
			if ( toName.count( r.cookie ) ) {
				open.insert( r.cookie );
				return run( i + 1, k, open );
			}
			return false;
		}
		if ( r.mask & IN_MOVED_TO ) {
			if ( open.count( r.cookie ) ) {
				if ( fits( k, Moved, r.name, fromName[r.cookie] ) ) {
					open.erase( r.cookie );
					return run( i + 1, k + 1, open );
				}
				return false;
			}
			return fits( k, Add, r.name ) && fits( k + 1, Modified, r.name ) &&
				   run( i + 2 - 1, k + 2, open );
		}
		return run( i + 1, k, open );
	}
};

void checkExact( Slot* s ) {
	if ( polled( W[s->w] ) )
		return;
	for ( auto& kv : s->strictDirs ) {
		const std::string& dir = kv.first;
		kern::Inode* n = kern::lookup( dir, false );
		if ( !n || n->gen != kv.second || dirDisturbed( dir ) )
			continue;
		int wd = -1;
		if ( kern::markCount( n ) == 1 )
			wd = kern::wdOf( n );
		if ( wd < 0 )
			continue;
		Matcher m;
		for ( size_t i = winRaw; i < kern::raw.size(); i++ )
			if ( kern::raw[i].wd == wd && !kern::raw[i].name.empty() && kern::raw[i].dir == dir &&
				 !kern::raw[i].dropped ) {
				auto& r = kern::raw[i];
				m.raw.push_back( r );
				if ( r.mask & IN_MOVED_FROM )
					m.fromName[r.cookie] = r.name;
				if ( r.mask & IN_MOVED_TO )
					m.toName[r.cookie] = r.name;
			}
		for ( size_t i = winCb; i < cbs.size(); i++ )
			if ( cbs[i].w == s->w && cbs[i].id == s->id && !cbs[i].missed &&
				 absOf( s, cbs[i].dir, "x" ) == dir + "/x" )
				m.got.push_back( cbs[i] );
		if ( !m.raw.empty() )
			{
			probe( "exact-sequence-compared" );
			probe( "decided" );
		}
		if ( m.run( 0, 0, {} ) )
			continue;
		std::string msg = "events reported for " + dir +
						  " do not correspond one to one, in order, to what happened there.\n  "
						  "happened:";
		for ( auto& r : m.raw ) {
			const char* k = r.mask & IN_CREATE	   ? "create"
							: r.mask & IN_MODIFY	   ? "modify"
							: r.mask & IN_CLOSE_WRITE ? "close-after-write"
							: r.mask & IN_DELETE	   ? "delete"
							: r.mask & IN_MOVED_FROM  ? "moved-from"
													   : "moved-to";
			msg += std::string( "\n    " ) + k + " " + r.name;
		}
		msg += "\n  reported:";
		for ( auto& e : m.got )
			msg += std::string( "\n    " ) + actName( e.action ) + " " + e.file +
				   ( e.old.empty() ? "" : " (from " + e.old + ")" );
		msg += "\n  first mismatch after " + std::to_string( m.bestRaw ) + " changes / " +
			   std::to_string( m.bestGot ) + " events";
		violation( "sequence-mismatch", msg );
	}
}

// ---------------------------------------------------------------- attribution
void checkAttribution( size_t from ) {
	for ( size_t i = from; i < cbs.size(); i++ ) {
		CbEv& e = cbs[i];
		Slot* s = slotOf( e.w, e.id );
		if ( !s )
			violation( "unknown-watch-id", "a callback carried watch id " + std::to_string( e.id ) +
											   " which no addWatch returned: " + e.dir + e.file );
		bool overlap = plan.num( "overlap", 0 );
		if ( s->listener != e.listener && !overlap )
			violation( "wrong-listener", "event " + e.dir + e.file + " of watch " + s->path +
											 " was delivered to listener " + e.listener );
		if ( e.fn != s->fn && !overlap )
			violation( "wrong-function", "event " + e.dir + e.file + " of watch " + s->path +
											 " was delivered to C function " +
											 std::to_string( e.fn ) + ", registered was " +
											 std::to_string( s->fn ) );
		if ( e.missed ) {
			if ( s->noMissed )
				violation( "wrong-function", "missed-actions callback without registration" );
			if ( e.dir != s->label && !overlap )
				violation( "wrong-directory",
						   "missed-actions callback names " + e.dir + " for watch " + s->label );
			continue;
		}
		if ( e.dir.compare( 0, s->label.size(), s->label ) != 0 ) {
			if ( plan.num( "links", 0 ) || plan.num( "overlap", 0 ) )
				continue;
			violation( "wrong-directory",
					   "event directory " + e.dir + " is not inside the watch " + s->label );
		}
		if ( !s->rec && e.dir != s->label && !plan.num( "overlap", 0 ) )
			violation( "wrong-directory", "non-recursive watch " + s->label +
											  " reported an event in " + e.dir );
		// the user may have added the watch with any spelling of its path
		size_t own = e.dir.compare( 0, s->label.size(), s->label ) == 0 ? s->label.size() - 1 : 0;
		if ( e.dir.find( "//", own ) != std::string::npos )
			violation( "wrong-directory", "malformed directory " + e.dir );
	}
}

// ---------------------------------------------------------------- probes
int probeNo = 0;
struct ProbeRec {
	std::string dir, name;
	bool expectCovered;
};
void allDirs( const std::string& p, std::vector<std::string>& out ) {
	kern::Inode* n = kern::lookup( p, false );
	if ( !n || n->type != kern::DIR_ )
		return;
	out.push_back( p );
	for ( auto& k : n->kids )
		if ( k.second->inode->type == kern::DIR_ )
			allDirs( p == "/" ? "/" + k.first : p + "/" + k.first, out );
}
bool readableDir( const std::string& d ) {
	kern::Inode* n = kern::lookup( d, false );
	return n && kern::readable( n );
}
bool covered( Slot* s, const std::string& d ) {
	// every directory from the root to d must be watchable
	if ( rootLost( s ) )
		return false;
	if ( d == s->root )
		return true;
	if ( !s->rec || !under( d, s->root ) || spoiled( s, kern::lookup( d, false ) ) )
		return false;
	for ( std::string x = d; x.size() > s->root.size(); x = parentOf( x ) ) {
		kern::Inode* n = kern::lookup( x, false );
		if ( !n || !readableDir( x ) || isRemote( n ) )
			return false;
	}
	return true;
}
// the directories, by real path, that the watch has to report on when links are followed
void linkVisit( Slot* s, const std::string& path, std::set<std::string>& cov ) {
	kern::Inode* n = kern::lookup( path, false );
	if ( !n || n->type != kern::DIR_ || !readableDir( path ) ||
		 ( path != s->root && isRemote( n ) ) || spoiled( s, n ) || !cov.insert( path ).second ||
		 !s->rec )
		return;
	const Watcher& w = W[s->w];
	for ( auto& k : n->kids ) {
		std::string p = path + "/" + k.first;
		if ( k.second->inode->type == kern::DIR_ )
			linkVisit( s, p, cov );
		else if ( k.second->inode->type == kern::LNK && w.follow ) {
			kern::Inode* t = kern::lookup( p );
			if ( !t || t->type != kern::DIR_ )
				continue;
			std::string to = kern::pathOf( t );
			if ( !polled( w ) && dangling.count( k.second->inode->gen ) )
				continue;  // nobody tells when its target appears
			if ( w.oos || slashed( to ).compare( 0, path.size() + 1, path + "/" ) == 0 )
				linkVisit( s, to, cov );
		}
	}
}
void checkProbes( bool remove ) {
	std::vector<std::string> dirs;
	allDirs( "/", dirs );
	std::vector<ProbeRec> pr;
	size_t cb0 = cbs.size(), raw0 = kern::raw.size();
	u64 start = seq();
	// probing a part of the directories only leaves the others as they are
	u64 part = (u64)plan.num( "probepart", 0 );
	for ( auto& t : linked )
		if ( kern::Inode* n = kern::lookup( t, false ) )
			linkedGens.insert( n->gen );
	for ( auto& d : dirs ) {
		if ( d == "/" )
			continue;
		if ( part && ( ( hashStr( d ) * 0x9E3779B97F4A7C15ull + ( part + phaseNo ) * 0xD1B54A32D192ED03ull ) >> 60 ) & 1 )
			continue;
		ProbeRec p;
		p.dir = d;
		p.name = "zz" + std::to_string( probeNo++ );
		pr.push_back( p );
		kern::hCreate( d + "/" + p.name );
	}
	settle( "probe" );
	checkAttribution( cb0 );
	size_t fs0 = kern::fslog.size() - pr.size();
	bool links = plan.num( "links", 0 );
	auto judge = [&]( int action, size_t from, const char* what ) {
		auto dropped = [&]( Slot* s ) {	 // the probes themselves overflowed a small queue
			for ( size_t i = raw0; i < kern::raw.size(); i++ )
				if ( kern::raw[i].dropped && kern::raw[i].inst == W[s->w].inst )
					return true;
			return false;
		};
		// a listener may have changed the tree meanwhile
		for ( size_t i = fs0; i < kern::fslog.size(); i++ )
			if ( base( kern::fslog[i].path ).compare( 0, 2, "zz" ) != 0 )
				return;
		std::map<Slot*, std::set<std::string>> cover;
		if ( links )
			for ( auto* s : S )
				if ( isAlive( s ) && !rootLost( s ) )
					linkVisit( s, s->root, cover[s] );
		for ( auto& p : pr )
			for ( auto* s : S ) {
				if ( !isAlive( s ) || !W[s->w].watching || s->addSeq >= start || rootRenamed( s ) ||
					 ( !polled( W[s->w] ) && ( !s->rootGen || dropped( s ) ) ) )
					continue;
				int n = 0, other = 0;
				std::string where;
				bool within = p.dir == s->root || under( p.dir, s->root );
				for ( size_t i = from; i < cbs.size(); i++ ) {
					CbEv& e = cbs[i];
					if ( e.w != s->w || e.id != s->id || e.file != p.name )
						continue;
					// what a link leads to is reported under its real path
					bool right = links && !within ? e.dir == p.dir + "/"
												  : absOf( s, e.dir, e.file ) == p.dir + "/" + p.name;
					if ( e.action == action && right )
						n++;
					else if ( e.action != efsw::Actions::Modified || !right ) {
						other++;
						where += std::string( " " ) + actName( e.action ) + " " + e.dir + e.file;
					}
				}
				bool cov = links ? cover[s].count( p.dir ) : covered( s, p.dir );
				if ( cov && !within )
					probe( "probe-behind-link" );
				if ( cov ) {
					probe( "probe-covered-dir" );
					probe( "decided" );
					if ( n != 1 || other )
						violation( n == 0 ? "coverage-lost" : "coverage-duplicate",
								   std::string( "a file was " ) + what + " in " + p.dir +
									   " inside watch " + s->label + ": expected exactly one " +
									   actName( action ) + " event, got " + std::to_string( n ) +
									   ( other ? "; also" + where : "" ) );
				} else if ( n || other ) {
					bool maybe = false;	 // behind a link that was there before
					if ( links && W[s->w].everOut )
						for ( auto& t : linked )
							maybe |= p.dir == t || under( p.dir, t );
					// nobody tells a native watcher that what a link leads to was renamed
					if ( links && W[s->w].everOut && !polled( W[s->w] ) )
						for ( std::string x = p.dir; x.size() > 1; x = parentOf( x ) )
							if ( kern::Inode* n = kern::lookup( x, false ) )
								maybe |= linkedGens.count( n->gen ) != 0;
					if ( maybe )
						continue;
					bool strictly = !under( p.dir, s->root ) || !s->rec ||
									( plan.num( "strictskip", 0 ) && !polled( W[s->w] ) );
					if ( strictly )
						violation( "coverage-excess",
								   std::string( "a file was " ) + what + " in " + p.dir +
									   ", outside watch " + s->label + ", yet an event was reported:" +
									   where + ( n ? " (direct)" : "" ) );
				} else
					probe( "probe-outside-dir" );
			}
	};
	judge( efsw::Actions::Add, cb0, "created" );
	if ( remove ) {
		size_t cb1 = cbs.size();
		for ( auto& p : pr )
			kern::hUnlink( p.dir + "/" + p.name );
		settle( "probe removal" );
		judge( efsw::Actions::Delete, cb1, "removed" );
	}
}

// ---------------------------------------------------------------- registry
void checkRegistry() {
	for ( auto& kv : W ) {
		Watcher& w = kv.second;
		if ( !w.alive || w.capi )
			continue;
		std::multiset<std::string> want;
		for ( auto* s : S )
			if ( s->w == kv.first && isAlive( s ) )
				want.insert( s->label );
		std::vector<std::string> d = opDirs( "U0", kv.first );
		std::multiset<std::string> have( d.begin(), d.end() );
		if ( want != have ) {
			std::string m = "directories() returned {";
			for ( auto& x : have )
				m += " " + x;
			m += " } but the live watches are {";
			for ( auto& x : want )
				m += " " + x;
			violation( "registry-mismatch", m + " }" );
		}
	}
}

// linearizability of add/remove/directories on one watcher
struct LinOp {
	u64 s0, s1;
	char kind;	// a add, r remove by path, i remove by id, d directories
	std::string key;
	long id;
	bool ok;
	std::vector<std::string> list;
};
std::vector<LinOp> lin;
std::set<std::string> linSeen;
typedef std::map<std::string, long> LinState;
bool sameKeys( const LinState& a, const std::set<std::string>& b ) {
	if ( a.size() != b.size() )
		return false;
	for ( auto& x : a )
		if ( !b.count( x.first ) )
			return false;
	return true;
}
bool linSearch( u64 doneMask, const LinState& st, const std::set<std::string>& fin, LinState& end ) {
	if ( doneMask == ( 1ull << lin.size() ) - 1 ) {
		end = st;
		return sameKeys( st, fin );
	}
	std::string key = std::to_string( doneMask );
	for ( auto& x : st )
		key += "|" + x.first + "=" + std::to_string( x.second );
	if ( !linSeen.insert( key ).second )
		return false;
	u64 minEnd = ~0ull;
	for ( size_t i = 0; i < lin.size(); i++ )
		if ( !( doneMask >> i & 1 ) )
			minEnd = std::min( minEnd, lin[i].s1 );
	for ( size_t i = 0; i < lin.size(); i++ ) {
		if ( ( doneMask >> i & 1 ) || lin[i].s0 > minEnd )
			continue;
		LinOp& o = lin[i];
		LinState n = st;
		if ( o.kind == 'a' ) {
			bool exists = false;
			for ( auto& x : st )
				exists |= x.first == o.key || canonical( x.first ) == canonical( o.key );
			if ( o.ok == exists )
				continue;
			if ( o.ok )
				n[o.key] = o.id;
		} else if ( o.kind == 'r' ) {
			n.erase( o.key );
		} else if ( o.kind == 'i' ) {
			auto it = n.find( o.key );
			if ( it != n.end() && it->second == o.id )
				n.erase( it );
		} else {
			std::set<std::string> l( o.list.begin(), o.list.end() );
			if ( l.size() != o.list.size() || !sameKeys( st, l ) )
				continue;
		}
		if ( linSearch( doneMask | 1ull << i, n, fin, end ) )
			return true;
	}
	return false;
}
size_t linFrom = 0;
std::map<std::string, LinState> linStart;
void checkLinear() {
	for ( auto& kv : W ) {
		if ( !kv.second.alive || kv.second.capi )
			continue;
		lin.clear();
		linSeen.clear();
		for ( size_t i = linFrom; i < apis.size(); i++ ) {
			ApiRec& r = apis[i];
			if ( r.w != kv.first )
				continue;
			LinOp o;
			o.s0 = r.s0;
			o.s1 = r.s1;
			o.key = slashed( r.key );
			o.id = r.res;
			if ( r.op == "add" ) {
				o.kind = 'a';
				o.ok = r.res > 0;
				if ( !o.ok && r.res != efsw::Errors::FileRepeated )
					continue;
			} else if ( r.op == "rm" || r.op == "rmpath" ) {
				o.kind = r.op == "rm" ? 'i' : 'r';
				o.ok = true;
			} else if ( r.op == "dirs" ) {
				o.kind = 'd';
				o.ok = true;
				o.list = r.list;
			} else
				continue;
			lin.push_back( o );
		}
		std::vector<std::string> now_ = opDirs( "U0", kv.first );
		std::set<std::string> fin( now_.begin(), now_.end() );
		LinState end;
		if ( lin.size() <= 30 ) {
			if ( lin.size() > 1 ) {
				probe( "linearizability-decided" );
				probe( "decided" );
			}
			if ( !linSearch( 0, linStart[kv.first], fin, end ) ) {
				std::string m = "no sequential order of the concurrent calls explains their "
								"results:";
				for ( auto& o : lin ) {
					m += std::string( "\n    [" ) + std::to_string( o.s0 ) + "," +
						 std::to_string( o.s1 ) + "] " +
						 ( o.kind == 'a'   ? "addWatch " + o.key + ( o.ok ? " -> id" : " -> FileRepeated" )
						   : o.kind == 'r' ? "removeWatch " + o.key
						   : o.kind == 'i' ? "removeWatch id " + std::to_string( o.id ) + " " + o.key
										   : std::string( "directories ->" ) );
					for ( auto& x : o.list )
						m += " " + x;
				}
				m += "\n    final:";
				for ( auto& x : fin )
					m += " " + x;
				violation( "not-linearizable", m );
			}
		} else
			inconclusive( "history too long" );
		linStart[kv.first] = end;
	}
	linFrom = apis.size();
}

// ---------------------------------------------------------------- kernel resources
size_t dirsUnder( Slot* s ) {
	std::vector<std::string> d;
	allDirs( s->root, d );
	size_t n = 0;
	for ( auto& x : d )
		n += covered( s, x );
	return n;
}
void checkWatchCount() {
	size_t want = 0, atMost = 0;
	for ( auto* s : S )
		if ( isAlive( s ) && !polled( W[s->w] ) ) {
			if ( rootRenamed( s ) )
				return;
			want += dirsUnder( s );
			ignoreFaults = true;
			atMost += dirsUnder( s );
			ignoreFaults = false;
		}
	if ( (size_t)kern::watchCount() < want || (size_t)kern::watchCount() > atMost )
		violation( "kernel-watch-count",
				   "the kernel holds " + std::to_string( kern::watchCount() ) +
					   " inotify watches for this process, the watched trees contain " +
					   std::to_string( want ) + " directories" );
	std::vector<std::string> fd;
	kern::openFds( &fd );
	int inst = 0;
	bool scanning = false;	// a polling thread may be in the middle of a scan
	for ( auto& w : W )
		scanning |= w.second.alive && w.second.watching && polled( w.second );
	for ( auto& f : fd ) {
		if ( f.compare( 0, 7, "inotify" ) == 0 )
			inst++;
		else if ( f.compare( 0, 3, "dir" ) == 0 && !scanning )
			violation( "fd-leak", "descriptor left open: " + f );
	}
	int wantInst = 0;
	for ( auto& w : W )
		wantInst += w.second.alive && !polled( w.second );
	if ( inst != wantInst )
		violation( "fd-leak", "expected " + std::to_string( wantInst ) + " inotify instances, have " +
								  std::to_string( inst ) );
}

// idle cost: a watcher with nothing to do must not spin
void checkIdle() {
	u64 s0 = stats().syscalls;
	i64 t0 = now( CLK_MONO );
	sleepFor( 5 * SEC );
	u64 n = stats().syscalls - s0;
	i64 dt = ( now( CLK_MONO ) - t0 ) / SEC;
	// allowance: inotify wakes 10 times a second; a poll costs a few calls per entry
	std::vector<kern::Entry> tree;
	kern::listTree( "/", tree );
	double allow = 0;
	for ( auto& w : W )
		if ( w.second.alive && w.second.watching ) {
			if ( polled( w.second ) )
				allow += ( 1000.0 / w.second.pollMs + 1 ) * dt * ( 20 + 12.0 * tree.size() );
			else
				allow += 60.0 * dt;
		}
	if ( n > allow + 100 )
		violation( "idle-spin", "an idle watcher made " + std::to_string( n ) + " system calls in " +
									std::to_string( dt ) + " simulated seconds" );
}

bool dropsSince( int inst, u64 from ) {
	for ( size_t i = winRaw; i < kern::raw.size(); i++ )
		if ( kern::raw[i].dropped && kern::raw[i].inst == inst && kern::raw[i].seq > from )
			return true;
	return false;
}
void checkMissed() {
	for ( auto* s : S ) {
		if ( !isAlive( s ) || !W[s->w].watching || s->noMissed )
			continue;
		Watcher& w = W[s->w];
		int n = 0;
		for ( size_t i = winCb; i < cbs.size(); i++ )
			n += cbs[i].missed && cbs[i].w == s->w && cbs[i].id == s->id;
		if ( !polled( w ) && dropsSince( w.inst, s->addSeq ) ) {
			probe( "overflow-window-decided" );
			probe( "decided" );
			if ( n == 0 )
				violation( "overflow-unreported",
						   "the kernel dropped events (queue overflow) but the listener of watch " +
							   s->label + " was never told through handleMissedFileActions" );
			int max = 0;
			for ( size_t i = winRaw; i < kern::raw.size(); i++ )
				max += kern::raw[i].inst == w.inst && ( kern::raw[i].mask & IN_Q_OVERFLOW );
			if ( n > max )
				violation( "overflow-duplicate",
						   "handleMissedFileActions was called " + std::to_string( n ) +
							   " times for watch " + s->label + " after " + std::to_string( max ) +
							   " overflows" );
		} else if ( n && ( polled( w ) || !dropsSince( w.inst, 0 ) ) )
			violation( "overflow-spurious", "handleMissedFileActions was called for watch " +
												s->label + " although nothing was dropped" );
	}
}

// repeated identical phases must not need more and more memory, descriptors or kernel watches
struct Usage {
	size_t bytes;
	int fds, watches;
	size_t entries;
};
std::vector<Usage> usage;
void checkGrow( size_t phases ) {
	// a polling thread may be in the middle of a scan: take the least of several readings
	std::vector<kern::Entry> tree;
	kern::listTree( "/", tree );
	Usage u = { liveBytes(), kern::openFds(), kern::watchCount(), tree.size() };
	for ( auto& w : W )
		if ( w.second.alive && w.second.watching && polled( w.second ) )
			for ( int i = 0; i < 8; i++ ) {
				sleepFor( ( 7 + 3 * i ) * MS + w.second.pollMs * MS / 5 );
				u.bytes = std::min( u.bytes, liveBytes() );
				u.fds = std::min( u.fds, kern::openFds() );
			}
	usage.push_back( u );
	size_t n = usage.size();
	if ( n < phases || n < 6 )
		return;
	// the last phases must be the same but for numbers in names
	auto shape = [&]( const Phase& ph ) {
		std::string t;
		for ( auto& o : ph.ops ) {
			t += o.actor;
			for ( auto& x : o.a )
				for ( char ch : " " + x )
					if ( !isdigit( ch ) )
						t += ch;
			t += '\n';
		}
		return t;
	};
	std::string want = shape( plan.phases[n - 1] );
	for ( size_t i = n - 5; i < n - 1; i++ )
		if ( shape( plan.phases[i] ) != want || usage[i].entries != usage[n - 1].entries )
			return;
	probe( "decided" );
	auto grows = [&]( const char* what, std::function<long( const Usage& )> f ) {
		bool all = true;
		std::string m;
		for ( size_t i = n - 4; i < n; i++ )
			all &= f( usage[i] ) > f( usage[i - 1] );
		for ( size_t i = 0; i < n; i++ )
			m += " " + std::to_string( f( usage[i] ) );
		if ( all )
			violation( "resource-growth", std::string( what ) +
											  " grow with every repetition of the same changes:" + m );
	};
	grows( "bytes of live heap memory", []( const Usage& u ) { return (long)u.bytes; } );
	grows( "open descriptors", []( const Usage& u ) { return (long)u.fds; } );
	grows( "kernel watches", []( const Usage& u ) { return (long)u.watches; } );
}

// events after the last file-system change reach the listener within a bounded time
void checkLatency() {
	for ( auto* s : S ) {
		if ( !isAlive( s ) || !W[s->w].watching )
			continue;
		Watcher& w = W[s->w];
		// a poll starts one interval after the end of the last one
		i64 lim = ( polled( w ) ? 1ll * w.pollMs * MS + 150 * MS : 300 * MS ) +
				  plan.num( "slack_ms", 0 ) * MS;
		for ( size_t i = winFs; i < kern::fslog.size(); i++ ) {
			auto& r = kern::fslog[i];
			if ( r.op != 'C' || !s->strictDirs.count( parentOf( r.path ) ) )
				continue;
			if ( polled( w ) && !( r.type == kern::REG || r.type == kern::DIR_ ) )
				continue;
			bool only = true;	// this name is created once and left alone
			for ( size_t j = winFs; j < kern::fslog.size(); j++ )
				if ( j != i && ( kern::fslog[j].op != 'W' ) &&
					 ( kern::fslog[j].path == r.path || kern::fslog[j].path2 == r.path ||
					   kern::fslog[j].gen == r.gen ) )
					only = false;
			if ( !only || dirDisturbed( parentOf( r.path ) ) ||
				 !strictDir( s, parentOf( r.path ) ) )
				continue;
			i64 at = -1;
			for ( size_t k = winCb; k < cbs.size() && at < 0; k++ )
				if ( cbs[k].w == s->w && cbs[k].id == s->id &&
					 cbs[k].action == efsw::Actions::Add &&
					 absOf( s, cbs[k].dir, cbs[k].file ) == r.path )
					at = cbs[k].t;
			if ( at < 0 )
				continue;
			probe( "latency-decided" );
			probe( "decided" );
			if ( at - std::max( r.t, w.watchT ) > lim )
				violation( "late-event", "creation of " + r.path + " was reported after " +
											 std::to_string( ( at - r.t ) / MS ) +
											 " simulated ms (limit " + std::to_string( lim / MS ) +
											 ")" );
		}
	}
}

// without synthetic events an Add repeats what the kernel announced, and nothing else
void checkNoSynth( Slot* s ) {
	if ( s->syn || polled( W[s->w] ) )
		return;
	std::map<std::string, int> n;
	for ( size_t i = winCb; i < cbs.size(); i++ )
		if ( cbs[i].w == s->w && cbs[i].id == s->id && cbs[i].action == efsw::Actions::Add )
			n[cbs[i].file]++;
	for ( size_t i = winRaw; i < kern::raw.size(); i++ ) {
		auto& r = kern::raw[i];
		if ( !r.dropped && r.inst == W[s->w].inst && ( r.mask & ( IN_CREATE | IN_MOVED_TO ) ) )
			n[r.name]--;
	}
	for ( auto& x : n )
		if ( x.second > 0 )
			violation( "synthetic-event", "more Add events were reported for " + x.first +
											  " than the system announced, without synthetic events "
											  "being enabled:" +
											  eventsFor( s, x.first ) );
	if ( !n.empty() )
		probe( "no-synthetic-decided" );
}

// generic backend: each settled single change is reported exactly once
void checkOnce() {
	for ( auto* s : S ) {
		if ( !isAlive( s ) || !polled( W[s->w] ) || !W[s->w].watching || !s->synced )
			continue;
		// net effect per name
		std::map<std::string, std::vector<std::string>> ev;
		for ( size_t i = winCb; i < cbs.size(); i++ ) {
			CbEv& e = cbs[i];
			if ( e.w != s->w || e.id != s->id || e.missed )
				continue;
			std::string p = absOf( s, e.dir, e.file );
			ev[p].push_back( actName( e.action ) );
		}
		for ( auto& kv : ev ) {
			probe( "decided" );
			// a name nobody touched in this window must not be reported created or deleted
			bool touched = false;
			for ( size_t i = winFs; i < kern::fslog.size() && !touched; i++ ) {
				auto& r = kern::fslog[i];
				if ( r.path == kv.first || r.path2 == kv.first || under( kv.first, r.path ) ||
					 ( !r.path2.empty() && under( kv.first, r.path2 ) ) ||
					 under( r.path, kv.first ) || ( !r.path2.empty() && under( r.path2, kv.first ) ) )
					touched = true;
			}
			// through another name: a hard link, or whatever a symbolic link points to
			kern::Inode* self = kern::lookup( kv.first, false );
			kern::Inode* goal = kern::lookup( kv.first );
			if ( self && self->type == kern::LNK )
				touched = true;
			for ( size_t i = winFs; i < kern::fslog.size() && !touched; i++ )
				touched = goal && kern::fslog[i].gen == goal->gen;
			if ( !touched )
				violation( "spurious-event",
						   "nothing happened to " + kv.first + " in this window but it was reported:" +
							   eventsFor( s, base( kv.first ) ) );
		}
	}
}

// the events of a change that happened between two polls, from the trees before and after it
struct Net {
	typedef std::map<std::string, std::set<std::string>> Alt;	// path -> allowed event sequences
	typedef std::map<std::string, kern::Entry> Tree;
	std::vector<std::vector<Alt>> groups;
	bool rec;
	const Tree &t0, &t1;
	Net( bool rec, const Tree& a, const Tree& b ) : rec( rec ), t0( a ), t1( b ) {}

	static bool seen( const kern::Entry& e ) { return e.type == kern::REG || e.type == kern::DIR_; }
	static std::map<std::string, kern::Entry> kids( const Tree& t, const std::string& d ) {
		std::map<std::string, kern::Entry> r;
		for ( auto it = t.upper_bound( d + "/" ); it != t.end() && under( it->first, d ); ++it )
			if ( parentOf( it->first ) == d && seen( it->second ) )
				r[base( it->first )] = it->second;
		return r;
	}
	void content( Alt& a, const Tree& t, const std::string& d, const char* ev ) {
		if ( rec )
			for ( auto it = t.upper_bound( d + "/" ); it != t.end() && under( it->first, d ); ++it )
				if ( seen( it->second ) )
					a[it->first] = { ev };
	}
	void one( const Alt& a ) { groups.push_back( { a } ); }

	void dir( const std::string& d ) {
		auto k0 = kids( t0, d ), k1 = kids( t1, d );
		std::set<std::string> done;	 // names whose disappearance is explained
		for ( auto& kv : k1 ) {
			const std::string& n = kv.first;
			const kern::Entry& e = kv.second;
			std::string p = d + "/" + n;
			// the name this came from
			std::string from;
			for ( auto& o : k0 )
				if ( o.second.gen == e.gen && o.second.type == e.type && !k1.count( o.first ) )
					from = o.first;
			if ( k0.count( n ) && k0[n].gen == e.gen ) {
				const kern::Entry& o = k0[n];
				bool touched = o.mtime != e.mtime || o.size != e.size;
				if ( e.type == kern::DIR_ ) {
					if ( touched || o.mode != e.mode )
						one( { { p, { "", "M" } } } );
					if ( rec )
						dir( p );
				} else if ( touched )
					one( { { p, { "M" } } } );
				else if ( o.mode != e.mode )
					one( { { p, { "", "M" } } } );
				continue;
			}
			if ( !k0.count( n ) ) {
				if ( !from.empty() ) {
					one( { { p, { "V" + from } } } );
					done.insert( from );
				} else {
					Alt a = { { p, { "A" } } };
					content( a, t1, p, "A" );
					one( a );
				}
				continue;
			}
			// something else has taken the place of a name
			const kern::Entry& o = k0[n];
			Alt split, moved;
			if ( o.type != e.type )
				split[p] = { "D A" };
			else if ( e.type == kern::DIR_ )
				split[p] = { "D A", "M", "" };
			else
				split[p] = { "D A", "M" };
			content( split, t0, p, "D" );
			Alt add;
			content( add, t1, p, "A" );
			for ( auto& x : add )
				if ( split.count( x.first ) )
					split[x.first] = { "D A", "M", "" };
				else
					split[x.first] = x.second;
			if ( !from.empty() ) {
				std::string f = d + "/" + from;
				split[f] = { "D" };
				content( split, t0, f, "D" );
				moved[p] = { "V" + from, "D V" + from, "V" + from + " M" };
				content( moved, t0, p, "D" );
				done.insert( from );
				groups.push_back( { split, moved } );
			} else
				one( split );
		}
		for ( auto& kv : k0 )
			if ( !k1.count( kv.first ) && !done.count( kv.first ) ) {
				std::string p = d + "/" + kv.first;
				Alt a = { { p, { "D" } } };
				content( a, t0, p, "D" );
				one( a );
			}
	}
};

void checkNet( Slot* s ) {
	if ( !polled( W[s->w] ) )
		return;
	if ( !inGap ) {
		probe( "change-during-poll" );
		return;
	}
	Net::Tree t1;
	std::vector<kern::Entry> v;
	kern::listTree( s->root, v );
	for ( auto& e : v )
		t1[e.path] = e;
	Net net( s->rec, s->before, t1 );
	net.dir( s->root );
	std::map<std::string, std::string> have;
	for ( size_t i = winCb; i < cbs.size(); i++ ) {
		CbEv& e = cbs[i];
		if ( e.w != s->w || e.id != s->id || e.missed )
			continue;
		std::string& h = have[absOf( s, e.dir, e.file )];
		h += h.empty() ? "" : " ";
		h += e.action == efsw::Actions::Moved ? "V" + e.old
			 : e.action == efsw::Actions::Add ? "A"
			 : e.action == efsw::Actions::Delete ? "D"
												 : "M";
	}
	probe( "net-change-decided" );
	probe( "decided" );
	std::map<std::string, std::set<std::string>> all;
	for ( auto& g : net.groups ) {
		bool fine = false;
		std::string path, want;
		for ( auto& alt : g ) {
			bool ok = true;
			for ( auto& p : alt ) {
				auto it = have.find( p.first );
				if ( !p.second.count( it == have.end() ? "" : it->second ) ) {
					ok = false;
					path = p.first;
					want = "";
					for ( auto& w : p.second )
						want += ( want.empty() ? "" : " or " ) + ( w.empty() ? "nothing" : w );
				}
			}
			if ( !fine && ok ) {
				fine = true;
				for ( auto& p : alt )
					all[p.first];
			}
		}
		if ( !fine )
			violation( "net-events", "a single change of " + s->root + ": expected for " + path + " " +
										 want + ", reported:" + eventsFor( s, "" ) );
	}
	for ( auto& h : have )
		if ( !all.count( h.first ) )
			violation( "net-spurious", "a single change of " + s->root + ": nothing happened to " +
										   h.first + " but it was reported:" + eventsFor( s, "" ) );
}

void runChecks( const std::vector<std::string>& checks ) {
	kern::disarmFaults();
	auto has = [&]( const char* c ) {
		return std::find( checks.begin(), checks.end(), c ) != checks.end();
	};
	if ( has( "nosettle" ) )
		return;
	settle( "phase" );
	checkCwd();
	int threads = 0;
	for ( auto& w : W )
		threads += w.second.alive && w.second.started;
	if ( liveEfswThreads() != threads )
		violation( "thread-count", std::to_string( liveEfswThreads() ) +
									   " library threads are running for " +
									   std::to_string( threads ) + " started watchers" );
	checkAttribution( winCb );
	for ( auto* s : S ) {
		if ( !isAlive( s ) || !s->synced || !W[s->w].watching )
			continue;
		if ( rootRenamed( s ) )
			continue;
		if ( has( "mirror" ) && !overflowed( s ) )
			checkMirror( s );
		if ( has( "modified" ) && !overflowed( s ) )
			checkModified( s );
		if ( has( "exact" ) )
			checkExact( s );
		if ( has( "nosynth" ) )
			checkNoSynth( s );
		if ( has( "net" ) )
			checkNet( s );
	}
	if ( has( "once" ) )
		checkOnce();
	if ( has( "latency" ) )
		checkLatency();
	if ( has( "missed" ) )
		checkMissed();
	if ( has( "linear" ) )
		checkLinear();
	if ( has( "registry" ) )
		checkRegistry();
	if ( has( "watches" ) )
		checkWatchCount();
	if ( has( "probe" ) )
		checkProbes( true );
	if ( has( "idle" ) )
		checkIdle();
	if ( has( "grow" ) )
		checkGrow( plan.phases.size() );
	resyncAll();
}

void teardown() {
	std::vector<std::string> names;
	if ( !W.empty() && plan.num( "teardowndecides", 0 ) )
		probe( "decided" );
	for ( auto& w : W )
		if ( w.second.alive )
			names.push_back( w.first );
	for ( auto& n : names )
		opDel( "U0", { "del", n } );
	size_t n = cbs.size();
	sleepFor( 3 * SEC );
	if ( cbs.size() != n )
		violation( "callback-after-destroy", "callbacks continued after the destructor" );
	if ( liveEfswThreads() )
		violation( "thread-leak", std::to_string( liveEfswThreads() ) +
									  " library thread(s) still running after every watcher was "
									  "destroyed" );
	std::vector<std::string> fd;
	if ( kern::openFds( &fd ) )
		violation( "fd-leak", "descriptors still open after every watcher was destroyed: " + fd[0] );
	std::vector<std::string> leaks;
	leakCheck( leaks );
	if ( !leaks.empty() )
		violation( "memory-leak", std::to_string( leaks.size() ) +
									  " blocks unreachable after every watcher was destroyed, "
									  "first: " +
									  leaks[0] );
}

void controller() {
	for ( auto& i : plan.init )
		execOp( "init", i );
	resyncAll();
	for ( size_t k = 0; k < plan.phases.size(); k++ ) {
		Phase& ph = plan.phases[k];
		phaseNo = (int)k;
		kern::setPhase( phaseNo );
		logf( "phase %d", phaseNo );
		std::vector<std::string> actors;
		for ( auto& o : ph.ops )
			if ( std::find( actors.begin(), actors.end(), o.actor ) == actors.end() )
				actors.push_back( o.actor );
		alone = actors.size() == 1;
		std::vector<int> ids;
		for ( auto& a : actors ) {
			if ( a == "U0" )
				continue;
			ids.push_back( spawn( a + "." + std::to_string( k ), [&ph, a] {
				for ( auto& o : ph.ops )
					if ( o.actor == a )
						execOp( a, o.a );
				hbRelease( (void*)0x2000 );
			} ) );
		}
		for ( auto& o : ph.ops )
			if ( o.actor == "U0" )
				execOp( "U0", o.a );
		waitUntil(
			[&] {
				for ( int i : ids )
					if ( !finished( i ) )
						return false;
				return true;
			},
			"actors" );
		hbAcquire( (void*)0x2000 );
		runChecks( ph.checks );
	}
	if ( !plan.num( "noteardown", 0 ) )
		teardown();
	finishOk();
}

}  // namespace

void runPlan( const Plan& p, bool trace, EndFn end ) {
	plan = p;
	Options o;
	o.trace = trace;
	o.raceDetect = p.num( "race", 0 );
	o.memReuse = p.num( "memreuse", 0 );
	o.apiLimit = p.num( "api_limit_ms", 60000 ) * MS;
	kern::cfg.uid = (unsigned)p.num( "uid", 0 );
	kern::cfg.fdBase = (int)p.num( "fdbase", 3 );
	kern::cfg.maxQueued = (size_t)p.num( "maxqueued", 16384 );
	kern::cfg.maxWatches = (int)p.num( "maxwatches", 1 << 20 );
	kern::cfg.inodeReuse = (int)p.num( "inodereuse", 0 );
	kern::cfg.inodeHigh = p.num( "inodehigh", 0 );
	kern::cfg.idBase = (u64)p.num( "idbase", 1 );
	kern::cfg.dirSizeMode = (int)p.num( "dirsize", 0 );
	kern::cfg.noDtype = p.num( "nodtype", 0 );
	kern::cfg.readdirChunk = (int)p.num( "readdirchunk", 0 );
	kern::cfg.dirSeed = (u64)p.num( "dirseed", 1 );
	kern::cfg.statDelay = (int)p.num( "statdelay", 0 );
	kern::faults = p.faults;
	start( p.sched, o, end );
	kern::init();
	int id = spawn( "U0", controller );
	waitUntil( [id] { return finished( id ); }, "controller" );
	finishOk();
}
