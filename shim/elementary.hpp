// Stand-in for njoy's elementary (particle, pair and reaction identifiers), which is not available
// offline.  Only what njoy/resonanceReconstruction uses: identifiers are value types that compare by
// symbol.  A moved-from identifier keeps its value.
#ifndef VERIF_SHIM_ELEMENTARY
#define VERIF_SHIM_ELEMENTARY
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>
#include <cctype>

namespace njoy {
namespace elementary {

class Symbol {
protected:
  std::string symbol_;
  explicit Symbol( std::string s ) : symbol_( std::move( s ) ) {}
  Symbol( const Symbol& ) = default;             // no move: see above
  Symbol& operator=( const Symbol& ) = default;
public:
  const std::string& symbol() const { return symbol_; }
  friend bool operator==( const Symbol& l, const Symbol& r ) { return l.symbol_ == r.symbol_; }
  friend bool operator!=( const Symbol& l, const Symbol& r ) { return l.symbol_ != r.symbol_; }
  friend bool operator<( const Symbol& l, const Symbol& r ) { return l.symbol_ < r.symbol_; }
  friend bool operator>( const Symbol& l, const Symbol& r ) { return r < l; }
  friend bool operator<=( const Symbol& l, const Symbol& r ) { return not ( r < l ); }
  friend bool operator>=( const Symbol& l, const Symbol& r ) { return not ( l < r ); }
  friend std::ostream& operator<<( std::ostream& o, const Symbol& s ) { return o << s.symbol_; }
};

class ParticleID : public Symbol {
  static std::string normalise( const std::string& s ) {
    if ( s == "g" or s == "gamma" ) return "photon";
    if ( s == "H1" or s == "H1_e0" ) return "p";
    if ( s == "H2" or s == "H2_e0" ) return "d";
    if ( s == "H3" or s == "H3_e0" ) return "t";
    if ( s == "He3" or s == "He3_e0" ) return "h";
    if ( s == "He4" or s == "He4_e0" ) return "he4";
    if ( s.size() > 3 and s.compare( s.size() - 3, 3, "_e0" ) == 0 ) return s.substr( 0, s.size() - 3 );
    return s;
  }
public:
  ParticleID( const std::string& s ) : Symbol( normalise( s ) ) {}
  ParticleID( const char* s ) : ParticleID( std::string( s ) ) {}
};

class ParticlePairID : public Symbol {
  ParticleID particle_, residual_;
  static std::string left( const std::string& s ) { return s.substr( 0, s.find( ',' ) ); }
  static std::string right( const std::string& s ) {
    auto i = s.find( ',' ); return i == std::string::npos ? std::string() : s.substr( i + 1 ); }
  static std::string normalise( const std::string& s ) {
    return s.find( ',' ) == std::string::npos
             ? s : ParticleID( left( s ) ).symbol() + "," + ParticleID( right( s ) ).symbol(); }
public:
  ParticlePairID( const ParticleID& a, const ParticleID& b ) :
    Symbol( a.symbol() + "," + b.symbol() ), particle_( a ), residual_( b ) {}
  ParticlePairID( const std::string& s ) :
    Symbol( normalise( s ) ), particle_( left( s ) ), residual_( right( s ) ) {}
  ParticlePairID( const char* s ) : ParticlePairID( std::string( s ) ) {}
  const ParticleID& particle() const { return particle_; }
  const ParticleID& residual() const { return residual_; }
};

class ReactionType {
  std::string name_;
  std::vector< ParticleID > particles_;
  int level_ = 0;
  int mt_ = 0;
public:
  ReactionType( const std::string& name ) : name_( name ) {}
  ReactionType( const char* name ) : name_( name ) {}
  ReactionType( int mt ) : mt_( mt ) {
    auto set = [&] ( const char* name, std::vector< ParticleID > p, int level = 0 )
                   { name_ = name; particles_ = std::move( p ); level_ = level; };
    if ( mt == 2 ) set( "elastic", { "n" } );
    else if ( mt == 18 ) set( "fission", {} );
    else if ( mt >= 50 and mt <= 90 ) set( "level", { "n" }, mt - 50 );
    else if ( mt == 102 ) set( "capture", { "g" } );
    else if ( mt == 103 ) set( "level", { "p" } );
    else if ( mt == 104 ) set( "level", { "d" } );
    else if ( mt == 105 ) set( "level", { "t" } );
    else if ( mt == 106 ) set( "level", { "h" } );
    else if ( mt == 107 ) set( "level", { "he4" } );
    else if ( mt >= 600 and mt < 649 ) set( "level", { "p" }, mt - 600 );
    else if ( mt >= 650 and mt < 699 ) set( "level", { "d" }, mt - 650 );
    else if ( mt >= 700 and mt < 749 ) set( "level", { "t" }, mt - 700 );
    else if ( mt >= 750 and mt < 799 ) set( "level", { "h" }, mt - 750 );
    else if ( mt >= 800 and mt < 849 ) set( "level", { "he4" }, mt - 800 );
    else throw std::runtime_error( "shim: reaction type not supported: " + std::to_string( mt ) );
  }
  const std::string& name() const { return name_; }
  const std::vector< ParticleID >& particles() const { return particles_; }
  int level() const { return level_; }
};

namespace detail {
  inline const std::vector< std::string >& elements() {
    static const std::vector< std::string > e = {
      "n", "H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S",
      "Cl", "Ar", "K", "Ca", "Sc", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Ga", "Ge",
      "As", "Se", "Br", "Kr", "Rb", "Sr", "Y", "Zr", "Nb", "Mo", "Tc", "Ru", "Rh", "Pd", "Ag", "Cd",
      "In", "Sn", "Sb", "Te", "I", "Xe", "Cs", "Ba", "La", "Ce", "Pr", "Nd", "Pm", "Sm", "Eu", "Gd",
      "Tb", "Dy", "Ho", "Er", "Tm", "Yb", "Lu", "Hf", "Ta", "W", "Re", "Os", "Ir", "Pt", "Au", "Hg",
      "Tl", "Pb", "Bi", "Po", "At", "Rn", "Fr", "Ra", "Ac", "Th", "Pa", "U", "Np", "Pu", "Am", "Cm",
      "Bk", "Cf", "Es", "Fm" };
    return e;
  }
  inline std::pair< int, int > za( const ParticleID& id ) {
    const std::string& s = id.symbol();
    if ( s == "photon" ) return { 0, 0 };
    if ( s == "n" ) return { 0, 1 };
    if ( s == "p" ) return { 1, 1 };
    if ( s == "d" ) return { 1, 2 };
    if ( s == "t" ) return { 1, 3 };
    if ( s == "h" ) return { 2, 3 };
    if ( s == "he4" ) return { 2, 4 };
    std::size_t i = 0; while ( i < s.size() and std::isalpha( static_cast< unsigned char >( s[i] ) ) ) ++i;
    std::string el = s.substr( 0, i );
    for ( std::size_t z = 0; z < elements().size(); ++z )
      if ( elements()[z] == el ) return { int( z ), std::stoi( s.substr( i ) ) };
    throw std::runtime_error( "shim: unknown particle " + s );
  }
}

inline ParticleID resolve( const ParticleID& incident, const ParticleID& target, const ReactionType& type ) {
  auto a = detail::za( incident ), b = detail::za( target ), o = detail::za( type.particles().front() );
  int z = a.first + b.first - o.first, n = a.second + b.second - o.second;
  return ParticleID( detail::elements().at( z ) + std::to_string( n )
                     + ( type.level() ? "_e" + std::to_string( type.level() ) : std::string() ) );
}

class ReactionID : public Symbol {
  static std::string out( const ParticleID& a, const ParticleID& b, const ReactionType& t ) {
    if ( t.name() == "elastic" ) return a.symbol() + "," + b.symbol();
    return t.name();
  }
  static std::string normalise( const std::string& s ) {
    auto i = s.find( "->" );
    if ( i == std::string::npos ) return s;
    return ParticlePairID( s.substr( 0, i ) ).symbol() + "->" + ParticlePairID( s.substr( i + 2 ) ).symbol();
  }
public:
  ReactionID( const ParticlePairID& in, const ParticlePairID& o ) : Symbol( in.symbol() + "->" + o.symbol() ) {}
  ReactionID( const ParticleID& a, const ParticleID& b, const ReactionType& t ) :
    Symbol( a.symbol() + "," + b.symbol() + "->" + out( a, b, t ) ) {}
  ReactionID( const std::string& s ) : Symbol( normalise( s ) ) {}
  ReactionID( const char* s ) : ReactionID( std::string( s ) ) {}
};
}
}
#endif
