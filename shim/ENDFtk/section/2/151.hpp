// Stand-in for the part of njoy's ENDFtk (not available offline) that njoy/resonanceReconstruction
// uses: MF2/MT151.  Plain data with ENDFtk's accessor names, a parser for the fixed-column format,
// and njoy::Log (silent).
#ifndef VERIF_SHIM_ENDFTK_2_151
#define VERIF_SHIM_ENDFTK_2_151
#include <array>
#include <cmath>
#include <cstdlib>
#include <functional>
#include <map>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <variant>
#include <vector>

namespace njoy {

struct Log {
  template< class... A > static void info( A&&... ) {}
  template< class... A > static void error( A&&... ) {}
  template< class... A > static void warning( A&&... ) {}
  template< class... A > static void debug( A&&... ) {}
};

namespace ENDFtk {

// --- records -----------------------------------------------------------------------------------
inline double endfReal( std::string s ) {
  std::string t;
  for ( char c : s ) if ( c != ' ' ) t += c;
  if ( t.empty() ) return 0.;
  for ( std::size_t i = 1; i < t.size(); ++i )
    if ( ( t[i] == '+' or t[i] == '-' ) and t[i-1] != 'e' and t[i-1] != 'E' ) { t.insert( i, "e" ); break; }
  return std::strtod( t.c_str(), nullptr );
}
inline long endfInt( const std::string& s ) { return std::atol( s.c_str() ); }

struct Line { std::array< std::string, 6 > f; };

template< class It > Line readLine( It& it, const It& end, long& lineNumber ) {
  std::string l;
  while ( it != end and *it != '\n' ) l += *it++;
  if ( it != end ) ++it;
  ++lineNumber;
  l.resize( 80, ' ' );
  Line r;
  for ( int i = 0; i < 6; ++i ) r.f[i] = l.substr( 11 * i, 11 );
  return r;
}
struct Cont { double c1, c2; long l1, l2, n1, n2; };
inline Cont cont( const Line& l ) {
  return { endfReal( l.f[0] ), endfReal( l.f[1] ), endfInt( l.f[2] ), endfInt( l.f[3] ), endfInt( l.f[4] ), endfInt( l.f[5] ) };
}
template< class It > Cont readCont( It& it, const It& end, long& n ) { return cont( readLine( it, end, n ) ); }
template< class It > std::vector< double > readReals( It& it, const It& end, long& n, long count ) {
  std::vector< double > v;
  while ( long( v.size() ) < count ) {
    Line l = readLine( it, end, n );
    for ( int i = 0; i < 6 and long( v.size() ) < count; ++i ) v.push_back( endfReal( l.f[i] ) );
  }
  return v;
}
struct List { Cont head; std::vector< double > v; };
template< class It > List readList( It& it, const It& end, long& n ) {
  List l; l.head = readCont( it, end, n ); l.v = readReals( it, end, n, l.head.n1 ); return l;
}

struct HeadRecord {
  Cont c;
  template< class It > HeadRecord( It& it, const It& end, long& n ) : c( readCont( it, end, n ) ) {}
};
template< class It > HeadRecord HEAD( It& it, const It& end, long& n ) { return HeadRecord( it, end, n ); }

namespace section {

template< int MF, int MT > class Type;

template<> class Type< 2, 151 > {
public:

  // --- energy dependent scattering radius (TAB1) ---
  struct ScatteringRadius {
    std::vector< long > interpolants_;
    std::vector< std::pair< std::vector< double >, std::vector< double > > > regions_;
    ScatteringRadius( std::vector< long > boundaries, std::vector< long > interpolants,
                      std::vector< double > x, std::vector< double > y ) :
        interpolants_( std::move( interpolants ) ) {
      std::size_t begin = 0;
      for ( long b : boundaries ) {
        std::size_t e = std::size_t( b );
        regions_.push_back( { { x.begin() + begin, x.begin() + e }, { y.begin() + begin, y.begin() + e } } );
        begin = e - 1;
        if ( e < x.size() and x[e] == x[e-1] ) begin = e; // a jump
      }
    }
    const auto& regions() const { return regions_; }
    const auto& interpolants() const { return interpolants_; }
  };

  struct Chunk {};

  // --- Breit-Wigner ---
  struct BreitWignerLValue {
    template< class Range > struct Resonance {
      double ER_, AJ_, GT_, GN_, GG_, GF_;
      double ER() const { return ER_; }  double resonanceEnergy() const { return ER_; }
      double AJ() const { return AJ_; }  double spin() const { return AJ_; }
      double GT() const { return GT_; }  double totalWidth() const { return GT_; }
      double GN() const { return GN_; }  double neutronWidth() const { return GN_; }
      double GG() const { return GG_; }  double gammaWidth() const { return GG_; }
      double GF() const { return GF_; }  double fissionWidth() const { return GF_; }
      double GX() const { return GT_ - ( GN_ + GG_ + GF_ ); }
      double competitiveWidth() const { return GX(); }
    };
    double AWRI_, QX_; int L_, LRX_;
    std::vector< Resonance< Chunk > > resonances_;
    std::vector< double > spins_;
    BreitWignerLValue( double awri, double qx, int l, int lrx, std::vector< Resonance< Chunk > > r ) :
      AWRI_( awri ), QX_( qx ), L_( l ), LRX_( lrx ), resonances_( std::move( r ) ) {
      for ( auto& x : resonances_ ) spins_.push_back( x.AJ_ ); }
    double AWRI() const { return AWRI_; }  double atomicWeightRatio() const { return AWRI_; }
    double QX() const { return QX_; }
    int L() const { return L_; }  int orbitalMomentum() const { return L_; }
    int LRX() const { return LRX_; }  bool competitiveWidthFlag() const { return LRX_ != 0; }
    int NRS() const { return int( resonances_.size() ); }
    const auto& resonances() const { return resonances_; }
    const auto& spinValues() const { return spins_; }
  };

  template< int LRF > struct BreitWignerBase {
    using LValue = BreitWignerLValue;
    double SPI_, AP_; std::vector< LValue > lvalues_;
    BreitWignerBase( double spi, double ap, std::vector< LValue > l ) : SPI_( spi ), AP_( ap ), lvalues_( std::move( l ) ) {}
    double SPI() const { return SPI_; }  double spin() const { return SPI_; }
    double AP() const { return AP_; }  double scatteringRadius() const { return AP_; }
    unsigned int NLS() const { return lvalues_.size(); }  unsigned int numberLValues() const { return NLS(); }
    const auto& lValues() const { return lvalues_; }
  };
  struct SingleLevelBreitWigner : BreitWignerBase< 1 > { using BreitWignerBase::BreitWignerBase; };
  struct MultiLevelBreitWigner : BreitWignerBase< 2 > { using BreitWignerBase::BreitWignerBase; };

  // --- Reich-Moore ---
  struct ReichMooreLValue {
    template< class Range > struct Resonance {
      double ER_, AJ_, GN_, GG_, GFA_, GFB_;
      double ER() const { return ER_; }  double resonanceEnergy() const { return ER_; }
      double AJ() const { return AJ_; }  double spin() const { return AJ_; }
      double GN() const { return GN_; }  double neutronWidth() const { return GN_; }
      double GG() const { return GG_; }  double gammaWidth() const { return GG_; }
      double GFA() const { return GFA_; }  double firstFissionWidth() const { return GFA_; }
      double GFB() const { return GFB_; }  double secondFissionWidth() const { return GFB_; }
    };
    double AWRI_, APL_; int L_;
    std::vector< Resonance< Chunk > > resonances_;
    std::vector< double > spins_;
    ReichMooreLValue( double awri, double apl, int l, std::vector< Resonance< Chunk > > r ) :
      AWRI_( awri ), APL_( apl ), L_( l ), resonances_( std::move( r ) ) {
      for ( auto& x : resonances_ ) spins_.push_back( x.AJ_ ); }
    double AWRI() const { return AWRI_; }  double atomicWeightRatio() const { return AWRI_; }
    double APL() const { return APL_; }  double lDependentScatteringRadius() const { return APL_; }
    int L() const { return L_; }  int orbitalMomentum() const { return L_; }
    int NRS() const { return int( resonances_.size() ); }
    const auto& resonances() const { return resonances_; }
    const auto& spinValues() const { return spins_; }
  };
  struct ReichMoore {
    using LValue = ReichMooreLValue;
    double SPI_, AP_; int LAD_, NLSC_; std::vector< LValue > lvalues_;
    ReichMoore( double spi, double ap, int lad, int nlsc, std::vector< LValue > l ) :
      SPI_( spi ), AP_( ap ), LAD_( lad ), NLSC_( nlsc ), lvalues_( std::move( l ) ) {}
    double SPI() const { return SPI_; }  double spin() const { return SPI_; }
    double AP() const { return AP_; }  double scatteringRadius() const { return AP_; }
    unsigned int NLS() const { return lvalues_.size(); }  unsigned int numberLValues() const { return NLS(); }
    unsigned int NLSC() const { return NLSC_; }  unsigned int numberLValuesForConvergence() const { return NLSC_; }
    const auto& lValues() const { return lvalues_; }
  };

  // --- R-matrix limited ---
  struct RMatrixLimited {
    struct ParticlePairs {
      std::vector< double > MA_, MB_, ZA_, ZB_, IA_, IB_, Q_, PA_, PB_;
      std::vector< int > PNT_, SHF_, MT_;
      const auto& massParticleA() const { return MA_; }    const auto& massParticleB() const { return MB_; }
      const auto& chargeParticleA() const { return ZA_; }  const auto& chargeParticleB() const { return ZB_; }
      const auto& spinParticleA() const { return IA_; }    const auto& spinParticleB() const { return IB_; }
      const auto& parityParticleA() const { return PA_; }  const auto& parityParticleB() const { return PB_; }
      const auto& Q() const { return Q_; }
      const auto& penetrabilityFlag() const { return PNT_; }
      const auto& shiftFactorFlag() const { return SHF_; }
      const auto& MT() const { return MT_; }
      unsigned int numberParticlePairs() const { return MA_.size(); }
    };
    struct ResonanceChannels {
      double AJ_, PJ_;
      std::vector< int > PPI_; std::vector< unsigned int > L_;
      std::vector< double > SCH_, BND_, APE_, APT_;
      double spin() const { return AJ_; }
      double parity() const { return PJ_; }
      const auto& particlePairNumbers() const { return PPI_; }
      const auto& orbitalMomentumValues() const { return L_; }
      const auto& channelSpinValues() const { return SCH_; }
      const auto& boundaryConditionValues() const { return BND_; }
      const auto& effectiveChannelRadii() const { return APE_; }
      const auto& trueChannelRadii() const { return APT_; }
      unsigned int numberChannels() const { return PPI_.size(); }
    };
    struct ResonanceParameters {
      std::vector< double > ER_; std::vector< std::vector< double > > GAM_;
      unsigned int numberResonances() const { return ER_.size(); }
      const auto& resonanceEnergies() const { return ER_; }
      const auto& resonanceParameters() const { return GAM_; }
    };
    struct SpinGroup {
      ResonanceChannels channels_; ResonanceParameters parameters_;
      const auto& channels() const { return channels_; }
      const auto& parameters() const { return parameters_; }
    };
    int IFG_, KRM_, KRL_; ParticlePairs pairs_; std::vector< SpinGroup > groups_;
    int reducedWidths() const { return IFG_; }  int IFG() const { return IFG_; }
    int formalism() const { return KRM_; }  int KRM() const { return KRM_; }
    const auto& particlePairs() const { return pairs_; }
    const auto& spinGroups() const { return groups_; }
  };

  struct SpecialCase { double SPI_, AP_; };

  // --- unresolved ---
  struct UJ {
    double AJ_ = 0, D_ = 0, GNO_ = 0, GG_ = 0, GF_ = 0, GX_ = 0;
    int AMUN_ = 0, AMUG_ = 0, AMUF_ = 0, AMUX_ = 0;
    double spin() const { return AJ_; }
    double averageLevelSpacing() const { return D_; }
    double averageNeutronWidth() const { return GNO_; }
    double averageGammaWidth() const { return GG_; }
    double averageFissionWidth() const { return GF_; }
    double averageCompetitiveWidth() const { return GX_; }
    int neutronWidthDegreesFreedom() const { return AMUN_; }
    int gammaWidthDegreesFreedom() const { return AMUG_; }
    int fissionWidthDegreesFreedom() const { return AMUF_; }
    int competitiveWidthDegreesFreedom() const { return AMUX_; }
  };
  template< class J > struct ULValue {
    double AWRI_; int L_; std::vector< J > jvalues_;
    double atomicWeightRatio() const { return AWRI_; }  double AWRI() const { return AWRI_; }
    unsigned int orbitalMomentum() const { return L_; }  unsigned int L() const { return L_; }
    unsigned int numberSpinValues() const { return jvalues_.size(); }
    const auto& jValues() const { return jvalues_; }
  };
  template< class LV > struct UBase {
    using LValue = LV;
    double SPI_, AP_; int LSSF_; std::vector< LV > lvalues_;
    double spin() const { return SPI_; }  double SPI() const { return SPI_; }
    double scatteringRadius() const { return AP_; }  double AP() const { return AP_; }
    unsigned int NLS() const { return lvalues_.size(); }  unsigned int numberLValues() const { return NLS(); }
    const auto& lValues() const { return lvalues_; }
  };
  struct UnresolvedEnergyIndependent {
    template< class Range > struct JValue : UJ {};
    using LValue = ULValue< JValue< Chunk > >;
    UBase< LValue > b;
    double spin() const { return b.spin(); }  double scatteringRadius() const { return b.scatteringRadius(); }
    unsigned int NLS() const { return b.NLS(); }  const auto& lValues() const { return b.lValues(); }
  };
  struct UnresolvedEnergyDependentFissionWidths {
    struct JValue : UJ {
      std::vector< double > GFS_;
      const auto& averageFissionWidths() const { return GFS_; }
    };
    using LValue = ULValue< JValue >;
    UBase< LValue > b; std::vector< double > energies_;
    double spin() const { return b.spin(); }  double scatteringRadius() const { return b.scatteringRadius(); }
    unsigned int NLS() const { return b.NLS(); }  const auto& lValues() const { return b.lValues(); }
    const auto& energies() const { return energies_; }
  };
  struct UnresolvedEnergyDependent {
    struct JValue {
      double AJ_ = 0; int INT_ = 2;
      int AMUN_ = 0, AMUG_ = 0, AMUF_ = 0, AMUX_ = 0;
      std::vector< double > ES_, D_, GX_, GNO_, GG_, GF_;
      double spin() const { return AJ_; }
      const auto& energies() const { return ES_; }
      const auto& averageLevelSpacings() const { return D_; }
      const auto& averageCompetitiveWidths() const { return GX_; }
      const auto& averageNeutronWidths() const { return GNO_; }
      const auto& averageGammaWidths() const { return GG_; }
      const auto& averageFissionWidths() const { return GF_; }
      int neutronWidthDegreesFreedom() const { return AMUN_; }
      int gammaWidthDegreesFreedom() const { return AMUG_; }
      int fissionWidthDegreesFreedom() const { return AMUF_; }
      int competitiveWidthDegreesFreedom() const { return AMUX_; }
    };
    using LValue = ULValue< JValue >;
    UBase< LValue > b;
    double spin() const { return b.spin(); }  double scatteringRadius() const { return b.scatteringRadius(); }
    unsigned int NLS() const { return b.NLS(); }  const auto& lValues() const { return b.lValues(); }
  };

  using Parameters = std::variant< SpecialCase, SingleLevelBreitWigner, MultiLevelBreitWigner, ReichMoore,
                                   RMatrixLimited, UnresolvedEnergyIndependent,
                                   UnresolvedEnergyDependentFissionWidths, UnresolvedEnergyDependent >;

  struct ResonanceRange {
    double EL_, EH_; int LRU_, LRF_, NRO_, NAPS_;
    std::optional< ScatteringRadius > radius_;
    Parameters parameters_;
    double EL() const { return EL_; }  double lowerEnergy() const { return EL_; }
    double EH() const { return EH_; }  double upperEnergy() const { return EH_; }
    int LRU() const { return LRU_; }  int type() const { return LRU_; }
    int LRF() const { return LRF_; }  int representation() const { return LRF_; }
    int NRO() const { return NRO_; }
    int NAPS() const { return NAPS_; }  int scatteringRadiusCalculationOption() const { return NAPS_; }
    const std::optional< ScatteringRadius >& scatteringRadius() const { return radius_; }
    const Parameters& parameters() const { return parameters_; }
  };
  struct Isotope {
    double ZAI_, ABN_; int LFW_;
    std::vector< ResonanceRange > ranges_;
    const auto& resonanceRanges() const { return ranges_; }
  };
  std::vector< Isotope > isotopes_;
  const auto& isotopes() const { return isotopes_; }

  template< class It > Type( const HeadRecord& head, It& it, const It& end, long& n, int ) {
    for ( long i = 0; i < head.c.n1; ++i ) isotopes_.push_back( readIsotope( it, end, n ) );
  }

private:
  template< class It > static Isotope readIsotope( It& it, const It& end, long& n ) {
    Cont c = readCont( it, end, n );
    Isotope iso{ c.c1, c.c2, int( c.l2 ), {} };
    for ( long i = 0; i < c.n1; ++i ) iso.ranges_.push_back( readRange( it, end, n, iso.LFW_ ) );
    return iso;
  }
  template< class It > static ResonanceRange readRange( It& it, const It& end, long& n, int lfw ) {
    Cont c = readCont( it, end, n );
    ResonanceRange r{ c.c1, c.c2, int( c.l1 ), int( c.l2 ), int( c.n1 ), int( c.n2 ), std::nullopt, SpecialCase{ 0, 0 } };
    if ( r.NRO_ ) {
      Cont t = readCont( it, end, n );
      auto nbt = readReals( it, end, n, 2 * t.n1 );
      auto xy = readReals( it, end, n, 2 * t.n2 );
      std::vector< long > b, in; std::vector< double > x, y;
      for ( long i = 0; i < t.n1; ++i ) { b.push_back( long( nbt[2*i] ) ); in.push_back( long( nbt[2*i+1] ) ); }
      for ( long i = 0; i < t.n2; ++i ) { x.push_back( xy[2*i] ); y.push_back( xy[2*i+1] ); }
      r.radius_ = ScatteringRadius( b, in, x, y );
    }
    if ( r.LRU_ == 0 ) { Cont s = readCont( it, end, n ); r.parameters_ = SpecialCase{ s.c1, s.c2 }; }
    else if ( r.LRU_ == 1 and ( r.LRF_ == 1 or r.LRF_ == 2 ) ) {
      Cont s = readCont( it, end, n );
      std::vector< BreitWignerLValue > ls;
      for ( long i = 0; i < s.n1; ++i ) {
        List l = readList( it, end, n );
        std::vector< BreitWignerLValue::Resonance< Chunk > > rs;
        for ( std::size_t k = 0; k + 5 < l.v.size(); k += 6 )
          rs.push_back( { l.v[k], l.v[k+1], l.v[k+2], l.v[k+3], l.v[k+4], l.v[k+5] } );
        ls.emplace_back( l.head.c1, l.head.c2, int( l.head.l1 ), int( l.head.l2 ), std::move( rs ) );
      }
      if ( r.LRF_ == 1 ) r.parameters_ = SingleLevelBreitWigner( s.c1, s.c2, std::move( ls ) );
      else r.parameters_ = MultiLevelBreitWigner( s.c1, s.c2, std::move( ls ) );
    }
    else if ( r.LRU_ == 1 and r.LRF_ == 3 ) {
      Cont s = readCont( it, end, n );
      std::vector< ReichMooreLValue > ls;
      for ( long i = 0; i < s.n1; ++i ) {
        List l = readList( it, end, n );
        std::vector< ReichMooreLValue::Resonance< Chunk > > rs;
        for ( std::size_t k = 0; k + 5 < l.v.size(); k += 6 )
          rs.push_back( { l.v[k], l.v[k+1], l.v[k+2], l.v[k+3], l.v[k+4], l.v[k+5] } );
        ls.emplace_back( l.head.c1, l.head.c2, int( l.head.l1 ), std::move( rs ) );
      }
      r.parameters_ = ReichMoore( s.c1, s.c2, int( s.l1 ), int( s.n2 ), std::move( ls ) );
    }
    else if ( r.LRU_ == 1 and r.LRF_ == 7 ) {
      Cont s = readCont( it, end, n ); // 0 0 IFG KRM NJS KRL
      RMatrixLimited m; m.IFG_ = int( s.l1 ); m.KRM_ = int( s.l2 ); m.KRL_ = int( s.n2 );
      List p = readList( it, end, n );
      for ( std::size_t k = 0; k + 11 < p.v.size(); k += 12 ) {
        auto& q = m.pairs_; const double* v = &p.v[k];
        q.MA_.push_back( v[0] ); q.MB_.push_back( v[1] ); q.ZA_.push_back( v[2] ); q.ZB_.push_back( v[3] );
        q.IA_.push_back( v[4] ); q.IB_.push_back( v[5] ); q.Q_.push_back( v[6] );
        q.PNT_.push_back( int( v[7] ) ); q.SHF_.push_back( int( v[8] ) ); q.MT_.push_back( int( v[9] ) );
        q.PA_.push_back( v[10] ); q.PB_.push_back( v[11] );
      }
      for ( long j = 0; j < s.n1; ++j ) {
        List c1 = readList( it, end, n ); // AJ PJ KBK KPS 6*NCH NCH
        RMatrixLimited::SpinGroup g;
        g.channels_.AJ_ = c1.head.c1; g.channels_.PJ_ = c1.head.c2;
        for ( std::size_t k = 0; k + 5 < c1.v.size(); k += 6 ) {
          const double* v = &c1.v[k];
          g.channels_.PPI_.push_back( int( v[0] ) ); g.channels_.L_.push_back( unsigned( v[1] ) );
          g.channels_.SCH_.push_back( v[2] ); g.channels_.BND_.push_back( v[3] );
          g.channels_.APE_.push_back( v[4] ); g.channels_.APT_.push_back( v[5] );
        }
        std::size_t nch = g.channels_.PPI_.size();
        List w = readList( it, end, n ); // 0 0 0 NRS 6*NX NX
        std::size_t per = 6 * ( ( nch + 1 + 5 ) / 6 );
        for ( long k = 0; k < w.head.l2; ++k ) {
          const double* v = &w.v[ k * per ];
          g.parameters_.ER_.push_back( v[0] );
          g.parameters_.GAM_.emplace_back( v + 1, v + 1 + nch );
        }
        m.groups_.push_back( std::move( g ) );
      }
      r.parameters_ = std::move( m );
    }
    else if ( r.LRU_ == 2 and r.LRF_ == 1 and lfw == 0 ) {
      Cont s = readCont( it, end, n );
      UnresolvedEnergyIndependent u; u.b.SPI_ = s.c1; u.b.AP_ = s.c2; u.b.LSSF_ = int( s.l1 );
      for ( long i = 0; i < s.n1; ++i ) {
        List l = readList( it, end, n );
        UnresolvedEnergyIndependent::LValue lv{ l.head.c1, int( l.head.l1 ), {} };
        for ( std::size_t k = 0; k + 5 < l.v.size(); k += 6 ) {
          UnresolvedEnergyIndependent::JValue< Chunk > j;
          j.D_ = l.v[k]; j.AJ_ = l.v[k+1]; j.AMUN_ = int( l.v[k+2] ); j.GNO_ = l.v[k+3]; j.GG_ = l.v[k+4];
          lv.jvalues_.push_back( j );
        }
        u.b.lvalues_.push_back( std::move( lv ) );
      }
      r.parameters_ = std::move( u );
    }
    else if ( r.LRU_ == 2 and r.LRF_ == 1 ) {
      List s = readList( it, end, n ); // SPI AP LSSF 0 NE NLS
      UnresolvedEnergyDependentFissionWidths u; u.b.SPI_ = s.head.c1; u.b.AP_ = s.head.c2; u.b.LSSF_ = int( s.head.l1 );
      u.energies_ = s.v;
      for ( long i = 0; i < s.head.n2; ++i ) {
        Cont c = readCont( it, end, n ); // AWRI 0 L 0 NJS 0
        UnresolvedEnergyDependentFissionWidths::LValue lv{ c.c1, int( c.l1 ), {} };
        for ( long k = 0; k < c.n1; ++k ) {
          List l = readList( it, end, n ); // 0 0 L MUF NE+6 0 / D AJ AMUN GNO GG 0 / GF...
          UnresolvedEnergyDependentFissionWidths::JValue j;
          j.AMUF_ = int( l.head.l2 );
          j.D_ = l.v[0]; j.AJ_ = l.v[1]; j.AMUN_ = int( l.v[2] ); j.GNO_ = l.v[3]; j.GG_ = l.v[4];
          j.GFS_.assign( l.v.begin() + 6, l.v.end() );
          lv.jvalues_.push_back( std::move( j ) );
        }
        u.b.lvalues_.push_back( std::move( lv ) );
      }
      r.parameters_ = std::move( u );
    }
    else if ( r.LRU_ == 2 and r.LRF_ == 2 ) {
      Cont s = readCont( it, end, n );
      UnresolvedEnergyDependent u; u.b.SPI_ = s.c1; u.b.AP_ = s.c2; u.b.LSSF_ = int( s.l1 );
      for ( long i = 0; i < s.n1; ++i ) {
        Cont c = readCont( it, end, n );
        UnresolvedEnergyDependent::LValue lv{ c.c1, int( c.l1 ), {} };
        for ( long k = 0; k < c.n1; ++k ) {
          List l = readList( it, end, n ); // AJ 0 INT 0 6*NE+6 NE / 0 0 AMUX AMUN AMUG AMUF / ES D GX GNO GG GF
          UnresolvedEnergyDependent::JValue j;
          j.AJ_ = l.head.c1; j.INT_ = int( l.head.l1 );
          j.AMUX_ = int( l.v[2] ); j.AMUN_ = int( l.v[3] ); j.AMUG_ = int( l.v[4] ); j.AMUF_ = int( l.v[5] );
          for ( std::size_t q = 6; q + 5 < l.v.size(); q += 6 ) {
            j.ES_.push_back( l.v[q] ); j.D_.push_back( l.v[q+1] ); j.GX_.push_back( l.v[q+2] );
            j.GNO_.push_back( l.v[q+3] ); j.GG_.push_back( l.v[q+4] ); j.GF_.push_back( l.v[q+5] );
          }
          lv.jvalues_.push_back( std::move( j ) );
        }
        u.b.lvalues_.push_back( std::move( lv ) );
      }
      r.parameters_ = std::move( u );
    }
    else throw std::runtime_error( "shim: unsupported resonance range" );
    return r;
  }
};
}
}
}
#endif
