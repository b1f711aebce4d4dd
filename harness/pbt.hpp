// A small property-based testing engine (choice-sequence generation in the style of Hypothesis).
//
// A case is a sequence of bounded integer choices.  Generators draw from it; the engine produces
// random sequences from a seed, and shrinks a failing one by deleting and lowering choices.  A run
// is a pure function of the code under test, the seed and the literal dictionary.
#ifndef VERIF_PBT
#define VERIF_PBT
#include <algorithm>
#include <array>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

using u64 = std::uint64_t;

inline u64 mix( u64 x ) { x += 0x9e3779b97f4a7c15ull; x = ( x ^ ( x >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
                          x = ( x ^ ( x >> 27 ) ) * 0x94d049bb133111ebull; return x ^ ( x >> 31 ); }

struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };   // property violated
struct Skip {};                                                                   // case outside of the domain

inline std::string num( double x ) { char b[40]; std::snprintf( b, sizeof b, "%.17g", x ); return b; }

// ---------------------------------------------------------------------------------------------
// numeric literals of the code under test: values worth trying (and their neighbourhood)
inline std::vector< double >& literals() { static std::vector< double > l; return l; }

// ---------------------------------------------------------------------------------------------
struct Src {
  std::vector< u64 > choices;   // replayed, then extended when random
  std::size_t pos = 0;
  bool random = false;
  u64 state = 0;
  std::vector< u64 > taken;     // as used, reduced to range

  u64 next() { state += 0x9e3779b97f4a7c15ull; u64 z = state;
               z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull; z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull;
               return z ^ ( z >> 31 ); }
  // an integer in [0,n); 0 is the simplest
  u64 below( u64 n ) {
    u64 c = 0;
    if ( n == 0 ) n = 1;
    if ( pos < choices.size() ) c = choices[ pos ] % n;
    else if ( random ) c = next() % n;
    ++pos;
    taken.push_back( c );
    return c;
  }
  long integer( long lo, long hi ) { return lo + long( below( u64( hi - lo ) + 1 ) ); }
  // a number of things: mostly in [lo,hi], now and then up to many (sorting, for one, changes above 16 elements)
  long count( long lo, long hi, long many ) { return chance( 2 ) ? integer( hi + 1, many ) : integer( lo, hi ); }
  bool boolean() { return below( 2 ) == 1; }
  bool chance( int percent ) { return below( 100 ) >= u64( 100 - percent ); } // simplest: no
  template< class T > const T& pick( const std::vector< T >& v ) { return v[ below( v.size() ) ]; }
  template< class T > T pick( std::initializer_list< T > v ) { return *( v.begin() + below( v.size() ) ); }
  double unit() { return double( below( u64( 1 ) << 53 ) ) / double( u64( 1 ) << 53 ); }

  // literal of the tree under test inside [lo,hi], or nothing
  bool literal( double lo, double hi, double& out ) {
    const auto& l = literals();
    auto a = std::lower_bound( l.begin(), l.end(), lo );
    auto b = std::upper_bound( l.begin(), l.end(), hi );
    if ( a >= b ) return false;
    double x = *( a + below( u64( b - a ) ) );
    switch ( below( 6 ) ) {
      case 0: break;
      case 1: x *= 1 + 1e-3 * unit(); break;
      case 2: x *= 1 - 1e-3 * unit(); break;
      case 3: x *= 1 + 0.1 * unit(); break;
      case 4: x *= 1 - 0.1 * unit(); break;
      case 5: x = std::nextafter( x, boolean() ? hi : lo ); break;
    }
    if ( x < lo or x > hi ) return false;
    out = x;
    return true;
  }
  // a real in [lo,hi]: mostly uniform, sometimes an end point, a round number or a literal
  double real( double lo, double hi ) {
    double x;
    switch ( below( 16 ) ) {
      case 0: case 1: return lo + ( hi - lo ) * double( below( 9 ) ) / 8.;
      case 2: if ( literal( lo, hi, x ) ) return x; break;
      default: break;
    }
    return std::min( hi, std::max( lo, lo + ( hi - lo ) * unit() ) );
  }
  // a positive real in [lo,hi], uniform in its logarithm, with the same extras
  double logreal( double lo, double hi ) {
    double x;
    switch ( below( 16 ) ) {
      case 0: return below( 2 ) ? hi : lo;
      case 1: { // round number: d x 10^k
        double l = std::ceil( std::log10( lo ) ), h = std::floor( std::log10( hi ) );
        if ( l <= h ) { x = std::pow( 10., double( integer( long( l ), long( h ) ) ) ) * double( integer( 1, 9 ) );
                        if ( x >= lo and x <= hi ) return x; }
        break; }
      case 2: case 3: if ( literal( lo, hi, x ) ) return x; break;
      default: break;
    }
    double a = std::log( lo ), b = std::log( hi );
    return std::min( hi, std::max( lo, std::exp( a + ( b - a ) * unit() ) ) );
  }
};

// survives the process: what was noted before a crash
constexpr std::size_t lastWordsSize = 1 << 16;
inline char*& lastWords() { static char* p = nullptr; return p; }

template< class... A > std::string cat( const A&... a ) { std::ostringstream o; o.precision( 17 ); ( void )std::initializer_list< int >{ ( o << a, 0 )... }; return o.str(); }
struct Case {
  bool verbose = false;
  std::string text;                  // description of the inputs, when verbose
  bool interesting = false;
  u64 hash = 0;
  std::vector< const char* > labels;
  std::vector< std::string > known;  // known findings seen in this case

  template< class... A > void note( const A&... a ) {
    if ( not verbose ) return;
    std::ostringstream o; o.precision( 17 );
    ( void )std::initializer_list< int >{ ( o << a, 0 )... };
    if ( not text.empty() ) text += "; ";
    text += o.str();
    if ( lastWords() ) { std::strncpy( lastWords(), text.c_str(), lastWordsSize - 1 ); }
  }
  void finding( const std::string& id ) { known.push_back( id ); }
  void label( const char* l ) { labels.push_back( l ); }
  void nontrivial( bool b = true ) { interesting = interesting or b; }

  template< class... A > [[noreturn]] void fail( const A&... a ) {
    std::ostringstream o; o.precision( 17 );
    ( void )std::initializer_list< int >{ ( o << a, 0 )... };
    throw Fail( o.str() );
  }
  template< class... A > void require( bool ok, const A&... a ) { if ( not ok ) fail( a... ); }
  // |actual - expected| <= rel * scale + abs; not-a-number and infinities have to agree
  template< class... A > void close( double actual, double expected, double rel, double abs, const A&... what ) {
    if ( actual == expected ) return;
    if ( std::isfinite( actual ) and std::isfinite( expected ) and
         std::fabs( actual - expected ) <= rel * std::fabs( expected ) + abs + 1e-290 ) return; // numbers below 2e-308 have few digits
    std::ostringstream o; o.precision( 17 );
    ( void )std::initializer_list< int >{ ( o << what, 0 )... };
    fail( o.str(), ": got ", num( actual ), ", expected ", num( expected ), " (allowed: ", rel, " relative + ", abs, ")" );
  }
};

struct Facet {
  std::string property, name, rule;
  long quick, thorough;
  std::function< void( Src&, Case& ) > body;
};
inline std::vector< Facet >& facets() { static std::vector< Facet > f; return f; }
struct Register {
  Register( const char* p, const char* n, long q, long t, const char* r, std::function< void( Src&, Case& ) > b ) {
    facets().push_back( { p, n, r, q, t, std::move( b ) } ); }
};
#define PBT_CAT2( a, b ) a##b
#define PBT_CAT( a, b ) PBT_CAT2( a, b )
// FACET( property, name, cases at quick, cases at thorough, what is generated and what makes it non-trivial )
#define FACET( P, N, Q, T, RULE )                                                                        \
  static void PBT_CAT( facet_, __LINE__ )( pbt::Src&, pbt::Case& );                                      \
  static pbt::Register PBT_CAT( reg_, __LINE__ )( P, N, Q, T, RULE, PBT_CAT( facet_, __LINE__ ) );       \
  static void PBT_CAT( facet_, __LINE__ )( [[maybe_unused]] pbt::Src& g, [[maybe_unused]] pbt::Case& c )

enum class Outcome { ok, skip, fail, crash };
struct Result { Outcome outcome = Outcome::ok; std::string message; Case c; std::vector< u64 > taken; };

inline u64 hashOf( const std::vector< u64 >& v ) { u64 h = v.size(); for ( u64 x : v ) h = mix( h ^ x ); return h; }

inline Result runCase( const Facet& f, Src& s, bool verbose ) {
  Result r; r.c.verbose = verbose;
  try { f.body( s, r.c ); }
  catch ( const Skip& ) { r.outcome = Outcome::skip; }
  catch ( const Fail& e ) { r.outcome = Outcome::fail; r.message = e.what(); }
  catch ( const std::exception& e ) { r.outcome = Outcome::fail; r.message = std::string( "unexpected exception: " ) + e.what(); }
  catch ( ... ) { r.outcome = Outcome::fail; r.message = "unexpected exception that is not a std::exception"; }
  r.taken = s.taken;
  r.c.hash = hashOf( s.taken );
  return r;
}
inline Result runChoices( const Facet& f, const std::vector< u64 >& ch, bool verbose = false ) {
  Src s; s.choices = ch; return runCase( f, s, verbose );
}

constexpr int hangSeconds = 100; // CPU seconds for one case (cases take milliseconds)

// run one case in a child process: survives crashes and endless loops
inline Result runForked( const std::function< Result() >& body, const std::vector< u64 >& ch ) {
  int p[2]; if ( pipe( p ) ) throw std::runtime_error( "pipe" );
  if ( not lastWords() ) lastWords() = static_cast< char* >( mmap( nullptr, lastWordsSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  lastWords()[0] = 0;
  std::cout.flush(); std::fflush( stdout );
  pid_t pid = fork();
  if ( pid == 0 ) {
    close( p[0] );
    int fd = open( "/dev/null", 1 ); if ( fd >= 0 ) dup2( fd, 2 );
    rlimit l{ rlim_t( hangSeconds ), rlim_t( hangSeconds ) }; setrlimit( RLIMIT_CPU, &l );
    rlimit core{ 0, 0 }; setrlimit( RLIMIT_CORE, &core );
    Result r = body();
    std::string out; out += char( '0' + int( r.outcome ) );
    out += r.message + '\x01' + r.c.text + '\x01';
    for ( u64 t : r.taken ) out += std::to_string( t ) + " ";
    const char* b = out.data(); std::size_t n = out.size();
    while ( n ) { ssize_t w = write( p[1], b, n ); if ( w <= 0 ) break; b += w; n -= std::size_t( w ); }
    _exit( 0 );
  }
  close( p[1] );
  std::string in; char buf[65536]; ssize_t k;
  while ( ( k = read( p[0], buf, sizeof buf ) ) > 0 || ( k < 0 && errno == EINTR ) ) if ( k > 0 ) in.append( buf, std::size_t( k ) );
  close( p[0] );
  int st = 0; waitpid( pid, &st, 0 );
  Result r;
  auto a = in.find( '\x01' );
  if ( not ( WIFEXITED( st ) and WEXITSTATUS( st ) == 0 ) or in.empty() or a == std::string::npos ) {
    r.outcome = Outcome::crash; r.taken = ch; r.c.text = lastWords();
    r.message = WIFSIGNALED( st )
      ? ( WTERMSIG( st ) == SIGXCPU or WTERMSIG( st ) == SIGKILL
            ? "no result within " + std::to_string( hangSeconds ) + " s of CPU time"
            : "terminated by signal " + std::to_string( WTERMSIG( st ) ) )
      : "abnormal exit with status " + std::to_string( WEXITSTATUS( st ) ) + " (sanitizer report or abort)";
    return r;
  }
  auto b = in.find( '\x01', a + 1 );
  r.outcome = Outcome( in[0] - '0' );
  r.message = in.substr( 1, a - 1 );
  r.c.text = in.substr( a + 1, b - a - 1 );
  std::istringstream is( in.substr( b + 1 ) ); u64 t; while ( is >> t ) r.taken.push_back( t );
  return r;
}
inline Result runForked( const Facet& f, const std::vector< u64 >& ch, bool verbose ) {
  return runForked( [&] { return runChoices( f, ch, verbose ); }, ch );
}
inline bool bad( const Result& r ) { return r.outcome == Outcome::fail or r.outcome == Outcome::crash; }

// shrink a failing choice sequence
inline std::vector< u64 > shrink( const Facet& f, std::vector< u64 > best, bool forked ) {
  std::time_t start = std::time( nullptr );
  long budget = forked ? 400 : 20000;
  auto fails = [&] ( const std::vector< u64 >& c, std::vector< u64 >& used ) {
    if ( budget-- <= 0 or std::time( nullptr ) - start > 60 ) return false;
    Result r = forked ? runForked( f, c, false ) : runChoices( f, c );
    if ( not bad( r ) ) return false;
    used = r.taken; return true;
  };
  auto smaller = [] ( const std::vector< u64 >& a, const std::vector< u64 >& b ) {
    return a.size() != b.size() ? a.size() < b.size() : a < b; };
  bool progress = true;
  std::vector< u64 > used;
  while ( progress and budget > 0 ) {
    progress = false;
    for ( std::size_t len : { 32, 16, 8, 4, 2, 1 } )
      for ( std::size_t i = 0; i + len <= best.size(); ) {
        std::vector< u64 > c = best; c.erase( c.begin() + long( i ), c.begin() + long( i + len ) );
        if ( fails( c, used ) and smaller( used, best ) ) { best = used; progress = true; } else ++i;
      }
    for ( std::size_t i = 0; i < best.size(); ++i ) {
      if ( best[i] == 0 ) continue;
      std::vector< u64 > c = best; c[i] = 0;
      if ( fails( c, used ) and smaller( used, best ) ) { best = used; progress = true; continue; }
      u64 lo = 0, hi = best[i]; // lowest failing value by bisection (good enough)
      while ( hi - lo > 1 and budget > 0 ) {
        u64 mid = lo + ( hi - lo ) / 2; c = best; c[i] = mid;
        if ( fails( c, used ) and smaller( used, best ) ) { best = used; hi = mid; progress = true; if ( i >= best.size() ) break; }
        else lo = mid;
      }
      if ( i >= best.size() ) break;
    }
  }
  return best;
}

inline std::string json( const std::string& s ) {
  std::string o = "\"";
  for ( unsigned char ch : s ) {
    if ( ch == '"' or ch == '\\' ) { o += '\\'; o += char( ch ); }
    else if ( ch == '\n' ) o += "\\n";
    else if ( ch < 0x20 ) { char b[8]; std::snprintf( b, sizeof b, "\\u%04x", ch ); o += b; }
    else o += char( ch );
  }
  return o + "\"";
}

inline std::string file( std::string s ) { for ( char& ch : s ) if ( not std::isalnum( (unsigned char) ch ) ) ch = '-'; return s; }

struct Shared { volatile long current; volatile long evaluations; };

struct WorkerReport {
  long evaluations = 0, skipped = 0;
  std::map< std::string, long > labels;
  std::map< std::string, long > known;       // finding -> times seen
  std::map< std::string, long > knownCase;   // finding -> first case index
  std::vector< u64 > hashes;                 // of non-trivial cases
  std::vector< long > sampleIndex;
  long failed = -1;                          // first failing case index
  bool crashed = false;
};

inline u64 caseSeed( u64 seed, const Facet& f, long i ) {
  u64 h = mix( seed ); for ( unsigned char ch : f.property + "/" + f.name ) h = mix( h ^ ch );
  return mix( h ^ u64( i ) * 0x2545F4914F6CDD1Dull );
}

// the cases first, first + stride, ..., last one after the other in one process; the outcome is that of the last
struct History { u64 seed = 0; long first = 0, stride = 1, last = -1; };
inline Result runHistory( const Facet& f, const History& h ) {
  return runForked( [&] {
    Result r;
    for ( long i = h.first; i <= h.last; i += h.stride ) {
      Src s; s.random = true; s.state = caseSeed( h.seed, f, i ); r = runCase( f, s, i == h.last ); }
    return r; }, {} );
}

// ---------------------------------------------------------------------------------------------
inline int main( int argc, char** argv ) {
  std::string property, tier = "quick", evidence, replayDir = ".", knownFile, literalFile, replay;
  u64 seed = 1; double scale = 1.; long jobs = sysconf( _SC_NPROCESSORS_ONLN ); std::string only; bool list = false;
  double wall = 0;
  for ( int i = 1; i < argc; ++i ) {
    std::string a = argv[i];
    auto v = [&] { return std::string( i + 1 < argc ? argv[ ++i ] : "" ); };
    if ( a == "--property" ) property = v(); else if ( a == "--tier" ) tier = v();
    else if ( a == "--seed" ) seed = std::strtoull( v().c_str(), nullptr, 10 );
    else if ( a == "--evidence" ) evidence = v(); else if ( a == "--replay-dir" ) replayDir = v();
    else if ( a == "--known" ) knownFile = v(); else if ( a == "--literals" ) literalFile = v();
    else if ( a == "--replay" ) replay = v(); else if ( a == "--scale" ) scale = std::atof( v().c_str() );
    else if ( a == "--jobs" ) jobs = std::atol( v().c_str() ); else if ( a == "--facet" ) only = v();
    else if ( a == "--list" ) list = true; else if ( a == "--wall" ) wall = std::atof( v().c_str() );
  }
  if ( jobs < 1 ) jobs = 1;
  if ( wall <= 0 ) wall = tier == "quick" ? 420 : 3000;
  if ( not literalFile.empty() ) { std::ifstream in( literalFile ); double x; while ( in >> x ) literals().push_back( x );
                                   std::sort( literals().begin(), literals().end() ); }
  if ( list ) { for ( auto& f : facets() ) std::cout << f.property << " " << f.name << " " << f.quick << " " << f.thorough << "\n"; return 0; }

  if ( not replay.empty() ) {
    std::ifstream in( replay ); std::string line, facet; std::vector< u64 > ch; History h;
    while ( std::getline( in, line ) ) {
      if ( line.rfind( "facet: ", 0 ) == 0 ) facet = line.substr( 7 );
      if ( line.rfind( "property: ", 0 ) == 0 and property.empty() ) property = line.substr( 10 );
      if ( line.rfind( "history: ", 0 ) == 0 ) { std::istringstream is( line.substr( 9 ) ); is >> h.seed >> h.first >> h.stride >> h.last; }
      if ( line.rfind( "choices: ", 0 ) == 0 ) { std::istringstream is( line.substr( 9 ) ); u64 t; while ( is >> t ) ch.push_back( t ); }
    }
    for ( auto& f : facets() ) if ( f.property == property and f.name == facet ) {
      Result r = h.last >= 0 ? runHistory( f, h ) : runForked( f, ch, true );
      if ( f.name.compare( 0, 10, "concurrent" ) == 0 ) for ( int t = 0; t < 200 and not bad( r ); ++t ) r = runForked( f, ch, true );
      std::cout << "case: " << r.c.text << "\n";
      if ( bad( r ) ) { std::cout << "FAILS: " << r.message << "\nVIOLATION property=" << property << " replay=" << replay << std::endl; return 1; }
      std::cout << "passes" << std::endl; return 0;
    }
    std::cerr << "no such facet: " << property << "/" << facet << std::endl; return 2;
  }

  // known findings of this property
  std::set< std::string > listed;
  { std::ifstream in( knownFile ); std::string line;
    while ( std::getline( in, line ) ) {
      std::string pre = "known: property=" + property + " id=";
      if ( line.rfind( pre, 0 ) == 0 ) { auto rest = line.substr( pre.size() ); listed.insert( rest.substr( 0, rest.find( ' ' ) ) ); }
    } }

  auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration< double >( std::chrono::steady_clock::now() - t0 ).count(); };
  long totalEval = 0, totalDistinct = 0, totalSkipped = 0; int violations = 0, matched = 0;
  std::ostringstream facetJson, samplesJson, rules; bool firstFacet = true, firstSample = true;
  std::map< std::string, long > knownSeen;
  std::string violationLine;

  for ( auto& f : facets() ) {
    if ( f.property != property or ( not only.empty() and f.name != only ) ) continue;
    ++matched;
    long n = std::max( 1L, long( double( tier == "quick" ? f.quick : f.thorough ) * scale ) );
    long w = std::min( jobs, std::max( 1L, n / 8 ) );
    auto* sh = static_cast< Shared* >( mmap( nullptr, sizeof( Shared ) * std::size_t( w ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
    std::vector< pid_t > pids; std::vector< int > fds;
    double left = wall - elapsed();
    std::cout.flush();
    for ( long k = 0; k < w; ++k ) {
      sh[k].current = -1; sh[k].evaluations = 0;
      int p[2]; if ( pipe( p ) ) return 2;
      pid_t pid = fork();
      if ( pid == 0 ) {
        close( p[0] ); for ( int fd : fds ) close( fd );
        int fd = open( "/dev/null", 1 ); if ( fd >= 0 ) dup2( fd, 2 );
        rlimit core{ 0, 0 }; setrlimit( RLIMIT_CORE, &core );
        WorkerReport r; std::unordered_set< u64 > seen;
        auto start = std::chrono::steady_clock::now();
        for ( long i = k; i < n; i += w ) {
          if ( std::chrono::duration< double >( std::chrono::steady_clock::now() - start ).count() > left ) break;
          rusage u; getrusage( RUSAGE_SELF, &u );
          rlimit l{ rlim_t( u.ru_utime.tv_sec + u.ru_stime.tv_sec + hangSeconds + 1 ), RLIM_INFINITY };
          if ( ( i / w ) % 64 == 0 or n < 4096 ) setrlimit( RLIMIT_CPU, &l );
          sh[k].current = i;
          Src s; s.random = true; s.state = caseSeed( seed, f, i );
          Result x = runCase( f, s, false );
          ++r.evaluations; sh[k].evaluations = r.evaluations;
          if ( x.outcome == Outcome::skip ) { ++r.skipped; continue; }
          if ( x.outcome == Outcome::fail ) { r.failed = i; break; }
          for ( auto* l2 : x.c.labels ) ++r.labels[ l2 ];
          for ( auto& kf : x.c.known ) { if ( ++r.known[ kf ] == 1 ) r.knownCase[ kf ] = i; }
          if ( x.c.interesting and seen.insert( x.c.hash ).second ) { r.hashes.push_back( x.c.hash ); if ( r.sampleIndex.size() < 2 ) r.sampleIndex.push_back( i ); }
        }
        std::ostringstream o;
        o << r.evaluations << " " << r.skipped << " " << r.failed << "\n" << r.labels.size() << "\n";
        for ( auto& l2 : r.labels ) o << l2.second << " " << l2.first << "\n";
        o << r.known.size() << "\n"; for ( auto& l2 : r.known ) o << l2.second << " " << r.knownCase[ l2.first ] << " " << l2.first << "\n";
        o << r.sampleIndex.size(); for ( long i : r.sampleIndex ) o << " " << i;
        o << "\n" << r.hashes.size() << "\n"; for ( u64 h : r.hashes ) o << h << "\n";
        std::string out = o.str(); const char* b = out.data(); std::size_t m = out.size();
        while ( m ) { ssize_t q = write( p[1], b, m ); if ( q <= 0 ) break; b += q; m -= std::size_t( q ); }
        _exit( 0 );
      }
      close( p[1] ); pids.push_back( pid ); fds.push_back( p[0] );
    }
    std::vector< std::string > in; in.resize( std::size_t( w ) ); std::vector< pollfd > pf;
    for ( int fd : fds ) pf.push_back( { fd, POLLIN, 0 } );
    long open_ = w; std::vector< char > buf( 1 << 16 );
    while ( open_ > 0 ) {
      if ( poll( pf.data(), pf.size(), 1000 ) < 0 and errno != EINTR ) break;
      for ( std::size_t k = 0; k < pf.size(); ++k ) if ( pf[k].fd >= 0 and ( pf[k].revents & ( POLLIN | POLLHUP ) ) ) {
        ssize_t q = read( pf[k].fd, buf.data(), buf.size() );
        if ( q > 0 ) in[k].append( buf.data(), std::size_t( q ) ); else if ( q == 0 ) { close( pf[k].fd ); pf[k].fd = -1; --open_; }
      }
    }
    std::unordered_set< u64 > distinct; std::map< std::string, long > labels; std::vector< long > sampleIndex;
    std::map< std::string, long > known, knownCase;
    long failed = -1, evals = 0, skipped = 0; bool crashed = false;
    for ( long k = 0; k < w; ++k ) {
      int st = 0; waitpid( pids[ std::size_t( k ) ], &st, 0 );
      bool ok = WIFEXITED( st ) and WEXITSTATUS( st ) == 0;
      std::istringstream is( in[ std::size_t( k ) ] );
      long e, sk, fa; std::size_t m;
      if ( ok and ( is >> e >> sk >> fa >> m ) ) {
        evals += e; skipped += sk;
        for ( std::size_t j = 0; j < m; ++j ) { long c; std::string l; is >> c; std::getline( is >> std::ws, l ); labels[ l ] += c; }
        is >> m; for ( std::size_t j = 0; j < m; ++j ) { long c, ci; std::string l; is >> c >> ci; std::getline( is >> std::ws, l ); known[ l ] += c;
          if ( not knownCase.count( l ) or ci < knownCase[ l ] ) knownCase[ l ] = ci; }
        is >> m; for ( std::size_t j = 0; j < m; ++j ) { long c; is >> c; sampleIndex.push_back( c ); }
        is >> m; u64 h; for ( std::size_t j = 0; j < m and is >> h; ++j ) distinct.insert( h );
        if ( fa >= 0 and ( failed < 0 or fa < failed ) ) { failed = fa; crashed = false; }
      }
      else { evals += sh[k].evaluations; long i = sh[k].current; if ( i >= 0 and ( failed < 0 or i < failed ) ) { failed = i; crashed = true; } }
    }
    munmap( sh, sizeof( Shared ) * std::size_t( w ) );
    totalEval += evals; totalDistinct += long( distinct.size() ); totalSkipped += skipped;

    auto reproduce = [&] ( long i ) { // the choices of case i
      Src s; s.random = true; s.state = caseSeed( seed, f, i ); return s; };

    // a failure that needs the cases that came before it in the same process (state kept by the code under test)
    auto reportHistory = [&] ( long i ) {
      for ( long back = 1; ; back *= 2 ) {
        History h{ seed, std::max( i - back * w, i % w ), w, i };
        Result last = runHistory( f, h );
        if ( bad( last ) and bad( runHistory( f, h ) ) and bad( runHistory( f, h ) ) ) {
          std::string path = replayDir + "/" + property + "-" + file( f.name ) + "-history-" + std::to_string( i ) + ".replay";
          std::ofstream o( path );
          o << "property: " << property << "\nfacet: " << f.name << "\nmessage: " << last.message << "\ncase: " << last.c.text
            << "\nhistory: " << h.seed << " " << h.first << " " << h.stride << " " << h.last << "\n";
          std::cout << "FAILURE in " << f.name << " (only after earlier calls in the same process): " << last.message << "\n  case: " << last.c.text << "\n";
          ++violations;
          if ( violationLine.empty() ) violationLine = "VIOLATION property=" + property + " replay=" + path;
          return;
        }
        if ( h.first == i % w ) break;
      }
      std::cout << "note: a failure of " << f.property << "/" << f.name << " did not reproduce\n";
    };
    std::function< void( std::vector< u64 >, bool, const std::string& ) > report = [&] ( std::vector< u64 > ch, bool forked, const std::string& why ) {
      int again = 0; Result last;
      // a failure that needs a schedule is one even if it does not come back; try for one that does
      if ( f.name.compare( 0, 10, "concurrent" ) == 0 and why.empty() ) {
        for ( int t = 0; t < 50 and not bad( last ); ++t ) last = runForked( f, ch, true );
        report( ch, false, bad( last ) ? last.message : "a result differed from that of the same call alone (not again in 50 repetitions)" ); return; }
      for ( int t = 0; t < 3; ++t ) { last = runForked( f, ch, true ); if ( bad( last ) ) ++again; }
      if ( again < 3 and why.empty() ) { reportHistory( failed ); return; }
      std::vector< u64 > small = ch;
      if ( why.empty() ) {
        bool done = false;
        if ( not forked ) {
          Result q = runForked( [&] { Result t; t.taken = shrink( f, ch, false ); return t; }, {} );
          if ( q.outcome == Outcome::ok ) { small = q.taken; done = true; }
        }
        if ( not done ) small = shrink( f, ch, true );
      }
      last = runForked( f, small, true );
      if ( why.empty() and not bad( last ) ) { small = ch; last = runForked( f, small, true ); }
      char name[64]; std::snprintf( name, sizeof name, "%016llx", (unsigned long long) hashOf( small ) );
      std::string path = replayDir + "/" + property + "-" + file( f.name ) + "-" + name + ".replay";
      std::ofstream o( path );
      o << "property: " << property << "\nfacet: " << f.name << "\nseed: " << seed << "\nmessage: " << ( why.empty() ? last.message : why )
        << "\ncase: " << last.c.text << "\nchoices:"; for ( u64 t : small ) o << " " << t; o << "\n";
      std::cout << "FAILURE in " << f.name << ": " << ( why.empty() ? last.message : why ) << "\n  case: " << last.c.text << "\n";
      ++violations;
      if ( violationLine.empty() ) violationLine = "VIOLATION property=" + property + " replay=" + path;
    };
    if ( failed >= 0 ) {
      Src s = reproduce( failed );
      std::vector< u64 > ch;
      if ( crashed ) { // the choices made before the crash are not known here: take them from the generator
        Src t = reproduce( failed ); for ( int q = 0; q < 20000; ++q ) ch.push_back( t.next() );
        // raw draws reduce modulo the range exactly as they did in the run
        Result r = runForked( f, ch, false ); if ( not bad( r ) ) crashed = false;
        if ( crashed ) { // shorten to a power of two that still fails before shrinking
          for ( std::size_t len = 16; len < ch.size(); len *= 2 ) { std::vector< u64 > c2( ch.begin(), ch.begin() + long( len ) );
            if ( bad( runForked( f, c2, false ) ) ) { ch = c2; break; } }
          report( ch, true, "" ); }
        else if ( f.name.compare( 0, 10, "concurrent" ) == 0 ) report( ch, true, "" );
        else reportHistory( failed );
      } else {
        Result r = runForked( [&] { return runCase( f, s, false ); }, {} );
        if ( ( bad( r ) and r.outcome != Outcome::crash ) or f.name.compare( 0, 10, "concurrent" ) == 0 ) report( r.taken, false, "" ); else reportHistory( failed ); }
    }
    for ( auto& kf : known ) {
      knownSeen[ kf.first ] += kf.second;
      if ( not listed.count( kf.first ) ) { Src s = reproduce( knownCase[ kf.first ] ); Result r = runForked( [&] { return runCase( f, s, false ); }, {} );
        report( r.taken, false, "deviation '" + kf.first + "' that is not listed as a known finding" ); }
    }

    if ( not firstFacet ) { facetJson << ", "; rules << " | "; }
    firstFacet = false;
    facetJson << json( f.name ) << ": {\"evaluations\": " << evals << ", \"distinct_nontrivial\": " << distinct.size()
              << ", \"outside_domain\": " << skipped << ", \"planned\": " << n << ", \"classes\": {";
    bool fl = true; for ( auto& l : labels ) { if ( not fl ) facetJson << ", "; fl = false; facetJson << json( l.first ) << ": " << l.second; }
    facetJson << "}}";
    rules << f.name << ": " << f.rule;
    std::sort( sampleIndex.begin(), sampleIndex.end() );
    for ( std::size_t j = 0; j < sampleIndex.size() and j < 2; ++j ) {
      Src s = reproduce( sampleIndex[j] ); Result r = runForked( [&] { return runCase( f, s, true ); }, {} );
      std::string t = r.c.text; if ( t.size() > 1200 ) t = t.substr( 0, 1200 ) + " ...";
      if ( not firstSample ) samplesJson << ", "; firstSample = false;
      samplesJson << json( f.name + ": " + t );
    }
    std::cout << property << "/" << f.name << ": " << evals << " cases, " << distinct.size() << " distinct non-trivial"
              << ( skipped ? ", " + std::to_string( skipped ) + " outside of the domain" : std::string() ) << ", " << elapsed() << " s" << std::endl;
  }
  if ( not matched ) { std::cerr << "no facets for " << property << std::endl; return 2; }
  for ( auto& kf : knownSeen ) if ( listed.count( kf.first ) )
    std::cout << "KNOWN-FINDING: property=" << property << " " << kf.first << " (seen in " << kf.second << " cases)" << std::endl;
  if ( not evidence.empty() ) {
    std::ofstream o( evidence );
    o << "{\"property\": " << json( property ) << ", \"tier\": " << json( tier ) << ", \"seed\": " << seed
      << ", \"level\": \"exploration\", \"coverage\": {\"evaluations\": " << totalEval << ", \"distinct_nontrivial\": " << totalDistinct
      << ", \"outside_domain\": " << totalSkipped << ", \"rule\": " << json( rules.str() ) << ", \"samples\": [" << samplesJson.str() << "], \"facets\": {"
      << facetJson.str() << "}, \"dictionary_literals\": " << literals().size() << "}, \"wall_s\": " << elapsed() << ", \"violations\": " << violations << "}\n";
  }
  if ( violations ) { std::cout << violationLine << std::endl; return 1; }
  return 0;
}
}
#endif
