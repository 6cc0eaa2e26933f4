#include "plan.h"
#include <cstdio>
#include <cstdlib>
#include <sstream>

std::vector<std::string> splitWs( const std::string& s ) {
	std::vector<std::string> v;
	std::istringstream is( s );
	std::string t;
	while ( is >> t )
		v.push_back( t );
	return v;
}
// names may contain blanks and the like: they are written as octal numbers, as in /proc/mounts
static std::string esc( const std::string& s ) {
	std::string o;
	char b[8];
	for ( unsigned char c : s )
		if ( c <= ' ' || c == '\\' || c >= 127 || ( c == '#' && o.empty() ) ) {
			snprintf( b, sizeof b, "\\%03o", c );
			o += b;
		} else
			o += (char)c;
	return o;
}
static std::string unesc( const std::string& s ) {
	std::string o;
	for ( size_t i = 0; i < s.size(); i++ )
		if ( s[i] == '\\' && i + 3 < s.size() ) {
			o += (char)strtol( s.substr( i + 1, 3 ).c_str(), nullptr, 8 );
			i += 3;
		} else
			o += s[i];
	return o;
}
static std::string join( const std::vector<std::string>& v, size_t from = 0 ) {
	std::string s;
	for ( size_t i = from; i < v.size(); i++ )
		s += ( i > from ? " " : "" ) + esc( v[i] );
	return s;
}
size_t Plan::opCount() const {
	size_t n = 0;
	for ( auto& p : phases )
		n += p.ops.size();
	return n;
}
std::string Plan::print() const {
	std::string s;
	s += "property " + property + "\n";
	for ( auto& c : cfg )
		s += "cfg " + c.first + " " + c.second + "\n";
	for ( auto& i : init )
		s += "init " + join( i ) + "\n";
	for ( auto& c : cbs )
		s += "on " + c.listener + " " + std::to_string( c.nth ) + " " + join( c.a ) + "\n";
	for ( auto& f : faults )
		s += "fault " + std::to_string( f.phase ) + " " + f.call + " " + std::to_string( f.nth ) +
			 " " + f.kind + " " + std::to_string( f.count ) + "\n";
	for ( auto& p : phases ) {
		s += "phase\n";
		for ( auto& o : p.ops )
			s += "  " + o.actor + ": " + join( o.a ) + "\n";
		s += "end " + join( p.checks ) + "\n";
	}
	char b[256];
	if ( sched.replay ) {
		s += "sched replay\n";
		for ( auto& d : sched.dev ) {
			snprintf( b, sizeof b, "dev %d %llu %d\n", d.fiber, (unsigned long long)d.point,
					  d.target );
			s += b;
		}
	} else {
		snprintf( b, sizeof b, "sched random %llu %.9g %.9g %.9g %.9g %.9g %.9g\n",
				  (unsigned long long)sched.seed, sched.pMem, sched.pComm, sched.pSync, sched.pSys,
				  sched.pUser, sched.pPick );
		s += b;
	}
	if ( !expect.empty() )
		s += "expect " + expect + "\n";
	return s;
}
bool Plan::parse( const std::string& text, Plan& p, std::string& err ) {
	std::istringstream is( text );
	std::string line;
	Phase* cur = nullptr;
	int ln = 0;
	while ( std::getline( is, line ) ) {
		ln++;
		auto v = splitWs( line );
		if ( v.empty() || v[0][0] == '#' )
			continue;
		for ( auto& x : v )
			x = unesc( x );
		if ( cur && v[0] != "end" ) {
			Op o;
			o.actor = v[0].substr( 0, v[0].size() - 1 );
			o.a.assign( v.begin() + 1, v.end() );
			cur->ops.push_back( o );
			continue;
		}
		if ( v[0] == "end" ) {
			if ( cur )
				cur->checks.assign( v.begin() + 1, v.end() );
			cur = nullptr;
		} else if ( v[0] == "phase" ) {
			p.phases.emplace_back();
			cur = &p.phases.back();
		} else if ( v[0] == "property" && v.size() > 1 )
			p.property = v[1];
		else if ( v[0] == "cfg" && v.size() > 2 )
			p.cfg[v[1]] = v[2];
		else if ( v[0] == "init" )
			p.init.push_back( std::vector<std::string>( v.begin() + 1, v.end() ) );
		else if ( v[0] == "on" && v.size() > 3 )
			p.cbs.push_back( { v[1], atoi( v[2].c_str() ),
							   std::vector<std::string>( v.begin() + 3, v.end() ) } );
		else if ( v[0] == "fault" && v.size() > 5 ) {
			kern::Fault f;
			f.phase = atoi( v[1].c_str() );
			f.call = v[2];
			f.nth = atoi( v[3].c_str() );
			f.kind = v[4];
			f.count = atoi( v[5].c_str() );
			p.faults.push_back( f );
		} else if ( v[0] == "sched" ) {
			if ( v[1] == "replay" )
				p.sched.replay = true;
			else if ( v.size() >= 9 ) {
				p.sched.replay = false;
				p.sched.seed = strtoull( v[2].c_str(), nullptr, 10 );
				p.sched.pMem = atof( v[3].c_str() );
				p.sched.pComm = atof( v[4].c_str() );
				p.sched.pSync = atof( v[5].c_str() );
				p.sched.pSys = atof( v[6].c_str() );
				p.sched.pUser = atof( v[7].c_str() );
				p.sched.pPick = atof( v[8].c_str() );
			}
		} else if ( v[0] == "dev" && v.size() > 3 ) {
			p.sched.dev.push_back( { atoi( v[1].c_str() ), strtoull( v[2].c_str(), nullptr, 10 ),
									 atoi( v[3].c_str() ) } );
		} else if ( v[0] == "expect" && v.size() > 1 )
			p.expect = v[1];
		else {
			err = "line " + std::to_string( ln ) + ": " + line;
			return false;
		}
	}
	return true;
}
