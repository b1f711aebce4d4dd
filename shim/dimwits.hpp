// Stand-in for njoy's dimwits (compile-time dimensional analysis), which is not available offline.
// Only what njoy/resonanceReconstruction uses.  A unit is a product of rational powers of the base
// units below; a Quantity stores its value in its own unit, and converts implicitly to any unit of
// the same SI dimension.
#ifndef VERIF_SHIM_DIMWITS
#define VERIF_SHIM_DIMWITS
#include <array>
#include <cmath>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <optional>
#include <string>
#include <tuple>
#include <variant>
#include <vector>
#include <complex>
#include <ratio>
#include <type_traits>
#include <ostream>

namespace dimwits {

template< std::intmax_t N, std::intmax_t D = 1 >
constexpr std::ratio< N, D > Ratio{};

template< class M, class KG, class S, class C, class EV, class DA, class B, class K >
struct Unit {
  using m = typename M::type; using kg = typename KG::type; using s = typename S::type;
  using c = typename C::type; using ev = typename EV::type; using da = typename DA::type;
  using b = typename B::type; using k = typename K::type;
};

using R0 = std::ratio<0>;
using R1 = std::ratio<1>;

template< class U > struct is_unit : std::false_type {};
template< class... A > struct is_unit< Unit< A... > > : std::true_type {};

template< class A, class B > using radd = typename std::ratio_add< A, B >::type;
template< class A, class B > using rsub = typename std::ratio_subtract< A, B >::type;
template< class A, class B > using rmul = typename std::ratio_multiply< A, B >::type;

template< class U, class V >
using UMul = Unit< radd< typename U::m, typename V::m >, radd< typename U::kg, typename V::kg >,
                   radd< typename U::s, typename V::s >, radd< typename U::c, typename V::c >,
                   radd< typename U::ev, typename V::ev >, radd< typename U::da, typename V::da >,
                   radd< typename U::b, typename V::b >, radd< typename U::k, typename V::k > >;
template< class U, class V >
using UDiv = Unit< rsub< typename U::m, typename V::m >, rsub< typename U::kg, typename V::kg >,
                   rsub< typename U::s, typename V::s >, rsub< typename U::c, typename V::c >,
                   rsub< typename U::ev, typename V::ev >, rsub< typename U::da, typename V::da >,
                   rsub< typename U::b, typename V::b >, rsub< typename U::k, typename V::k > >;
template< class U, class R >
using UPow = Unit< rmul< typename U::m, R >, rmul< typename U::kg, R >,
                   rmul< typename U::s, R >, rmul< typename U::c, R >,
                   rmul< typename U::ev, R >, rmul< typename U::da, R >,
                   rmul< typename U::b, R >, rmul< typename U::k, R > >;

using Dimensionless = Unit< R0, R0, R0, R0, R0, R0, R0, R0 >;
using Meter         = Unit< R1, R0, R0, R0, R0, R0, R0, R0 >;
using Kilogram      = Unit< R0, R1, R0, R0, R0, R0, R0, R0 >;
using Second        = Unit< R0, R0, R1, R0, R0, R0, R0, R0 >;
using Coulomb       = Unit< R0, R0, R0, R1, R0, R0, R0, R0 >;
using ElectronVolt  = Unit< R0, R0, R0, R0, R1, R0, R0, R0 >;
using Dalton        = Unit< R0, R0, R0, R0, R0, R1, R0, R0 >;
using Barn          = Unit< R0, R0, R0, R0, R0, R0, R1, R0 >;
using Kelvin        = Unit< R0, R0, R0, R0, R0, R0, R0, R1 >;
using Joule = Unit< std::ratio<2>, R1, std::ratio<-2>, R0, R0, R0, R0, R0 >;
using Farad = Unit< std::ratio<-2>, std::ratio<-1>, std::ratio<2>, std::ratio<2>, R0, R0, R0, R0 >;
using Meters = Meter; using Seconds = Second; using Coulombs = Coulomb;
using ElectronVolts = ElectronVolt; using Daltons = Dalton; using Barns = Barn;
using Kelvins = Kelvin; using Joules = Joule; using Farads = Farad;

constexpr double elementaryChargeValue = 1.6021766208e-19; // CODATA 2014
constexpr double daltonValue = 1.660539040e-27;            // CODATA 2014
constexpr double barnValue = 1e-28;

namespace detail {

  // exponents of the SI base dimensions
  template< class U > using M = radd< typename U::m, radd< rmul< std::ratio<2>, typename U::b >,
                                                           rmul< std::ratio<2>, typename U::ev > > >;
  template< class U > using KG = radd< typename U::kg, radd< typename U::da, typename U::ev > >;
  template< class U > using S = rsub< typename U::s, rmul< std::ratio<2>, typename U::ev > >;

  template< class U, class V >
  constexpr bool same = std::is_same_v< M< U >, M< V > > and std::is_same_v< KG< U >, KG< V > > and
                        std::is_same_v< S< U >, S< V > > and
                        std::is_same_v< typename U::c, typename V::c > and
                        std::is_same_v< typename U::k, typename V::k >;

  constexpr double csqrt( double x ) {
    if ( x <= 0 ) return 0;
    // scale into [1,4) by powers of four, Newton, scale back
    double f = 1;
    while ( x < 1 ) { x *= 4; f *= 0.5; }
    while ( x >= 4 ) { x *= 0.25; f *= 2; }
    double y = x;
    for ( int i = 0; i < 30; ++i ) y = 0.5 * ( y + x / y );
    return y * f;
  }
  constexpr double ipow( double x, std::intmax_t n ) {
    if ( n < 0 ) return 1. / ipow( x, -n );
    double r = 1;
    for ( std::intmax_t i = 0; i < n; ++i ) r *= x;
    return r;
  }
  template< class R > constexpr double rpow( double x ) {
    static_assert( R::den == 1 or R::den == 2 or R::num == 0, "unsupported exponent" );
    return R::num == 0 ? 1. : R::den == 1 ? ipow( x, R::num ) : ipow( csqrt( x ), R::num );
  }
  template< class From, class To > constexpr double factor() {
    using D = UDiv< From, To >;
    return rpow< typename D::ev >( elementaryChargeValue ) *
           rpow< typename D::da >( daltonValue ) * rpow< typename D::b >( barnValue );
  }
}

template< class U > struct Quantity {
  using Units = U;
  double value;

  constexpr Quantity() : value( 0 ) {}
  explicit constexpr Quantity( double v ) : value( v ) {}

  template< class V, std::enable_if_t< is_unit< V >::value and not std::is_same_v< U, V > and
                                       detail::same< U, V >, int > = 0 >
  constexpr Quantity( const Quantity< V >& o ) : value( o.value * detail::factor< V, U >() ) {}

  // an SI-dimensionless quantity is a number
  template< class T, std::enable_if_t< std::is_same_v< T, double > and
                                       detail::same< U, Dimensionless >, int > = 0 >
  constexpr operator T() const { return this->value * detail::factor< U, Dimensionless >(); }

  constexpr Quantity operator-() const { return Quantity( -value ); }
  constexpr Quantity operator+() const { return *this; }
  constexpr Quantity& operator+=( const Quantity& o ) { value += o.value; return *this; }
  constexpr Quantity& operator-=( const Quantity& o ) { value -= o.value; return *this; }
  constexpr Quantity& operator*=( double s ) { value *= s; return *this; }
  constexpr Quantity& operator/=( double s ) { value /= s; return *this; }
};

template< class T > struct is_quantity : std::false_type {};
template< class U > struct is_quantity< Quantity< U > > : std::true_type {};

// results that have no unit left are plain numbers
template< class U > constexpr auto make( double v ) {
  if constexpr ( std::is_same_v< typename UPow< U, R1 >::m, R0 > and
                 std::is_same_v< U, Dimensionless > ) { return v; }
  else { return Quantity< U >( v ); }
}

#define UNIT( U ) std::enable_if_t< is_unit< U >::value, int > = 0
#define NUM( T ) std::enable_if_t< std::is_arithmetic_v< T >, int > = 0

// unit algebra
template< class U, class V, UNIT( U ), UNIT( V ) > constexpr auto operator*( U, V ) { return UMul< U, V >(); }
template< class U, class V, UNIT( U ), UNIT( V ) > constexpr auto operator/( U, V ) { return UDiv< U, V >(); }
template< class U, std::intmax_t N, std::intmax_t D, UNIT( U ) >
constexpr auto pow( U, std::ratio< N, D > ) { return UPow< U, std::ratio< N, D > >(); }
namespace unit {
  template< class U, UNIT( U ) > constexpr auto sqrt( U ) { return UPow< U, std::ratio<1,2> >(); }
}

// number and unit
template< class T, class U, NUM( T ), UNIT( U ) > constexpr auto operator*( T v, U ) { return Quantity< U >( v ); }
template< class T, class U, NUM( T ), UNIT( U ) > constexpr auto operator*( U, T v ) { return Quantity< U >( v ); }
template< class T, class U, NUM( T ), UNIT( U ) > constexpr auto operator/( T v, U ) { return Quantity< UDiv< Dimensionless, U > >( v ); }
template< class U, class V, UNIT( V ) > constexpr auto operator*( const Quantity< U >& q, V ) { return make< UMul< U, V > >( q.value ); }
template< class U, class V, UNIT( V ) > constexpr auto operator*( V, const Quantity< U >& q ) { return make< UMul< V, U > >( q.value ); }
template< class U, class V, UNIT( V ) > constexpr auto operator/( const Quantity< U >& q, V ) { return make< UDiv< U, V > >( q.value ); }
template< class U, class V, UNIT( V ) > constexpr auto operator/( V, const Quantity< U >& q ) { return make< UDiv< V, U > >( 1. / q.value ); }

// quantity algebra
template< class U, class V > constexpr auto operator*( const Quantity< U >& l, const Quantity< V >& r ) { return make< UMul< U, V > >( l.value * r.value ); }
template< class U, class V > constexpr auto operator/( const Quantity< U >& l, const Quantity< V >& r ) { return make< UDiv< U, V > >( l.value / r.value ); }
template< class U, class T, NUM( T ) > constexpr auto operator*( const Quantity< U >& l, T r ) { return Quantity< U >( l.value * r ); }
template< class U, class T, NUM( T ) > constexpr auto operator*( T l, const Quantity< U >& r ) { return Quantity< U >( l * r.value ); }
template< class U, class T, NUM( T ) > constexpr auto operator/( const Quantity< U >& l, T r ) { return Quantity< U >( l.value / r ); }
template< class U, class T, NUM( T ) > constexpr auto operator/( T l, const Quantity< U >& r ) { return Quantity< UDiv< Dimensionless, U > >( l / r.value ); }

template< class U, class V > constexpr auto operator+( const Quantity< U >& l, const Quantity< V >& r ) { return Quantity< U >( l.value + Quantity< U >( r ).value ); }
template< class U, class V > constexpr auto operator-( const Quantity< U >& l, const Quantity< V >& r ) { return Quantity< U >( l.value - Quantity< U >( r ).value ); }

#define CMP( op ) \
  template< class U, class V > constexpr bool operator op( const Quantity< U >& l, const Quantity< V >& r ) { return l.value op Quantity< U >( r ).value; }
CMP( < ) CMP( > ) CMP( <= ) CMP( >= ) CMP( == ) CMP( != )
#undef CMP

template< class U > auto sqrt( const Quantity< U >& q ) { return make< UPow< U, std::ratio<1,2> > >( std::sqrt( q.value ) ); }
template< class U, std::intmax_t N, std::intmax_t D >
auto pow( const Quantity< U >& q, std::ratio< N, D > ) {
  return make< UPow< U, std::ratio< N, D > > >( std::pow( q.value, double( N ) / double( D ) ) );
}
template< class U > constexpr auto abs( const Quantity< U >& q ) { return Quantity< U >( q.value < 0 ? -q.value : q.value ); }
template< class U > std::ostream& operator<<( std::ostream& o, const Quantity< U >& q ) { return o << q.value; }

#undef UNIT
#undef NUM

constexpr Meter meter{}; constexpr Meter meters{};
constexpr Second second{}; constexpr Second seconds{};
constexpr Coulomb coulomb{}; constexpr Coulomb coulombs{};
constexpr ElectronVolt electronVolt{}; constexpr ElectronVolt electronVolts{};
constexpr Dalton dalton{}; constexpr Dalton daltons{};
constexpr Barn barn{}; constexpr Barn barns{};
constexpr Kelvin kelvin{}; constexpr Kelvin kelvins{};
constexpr Farad farad{}; constexpr Farad farads{};
constexpr Joule joule{}; constexpr Joule joules{};
struct Gram {}; constexpr Gram gram{}; constexpr Gram grams{};
constexpr Kilogram kilo( Gram ) { return {}; }
template< class U > constexpr auto centi( U ) { return Quantity< U >( 0.01 ); }

namespace constant {
  constexpr auto elementaryCharge = elementaryChargeValue * coulomb;
  constexpr auto dirac = 1.054571800e-34 * joule * second;
}
}

namespace std {
  template< class U > constexpr auto abs( const dimwits::Quantity< U >& q ) { return dimwits::abs( q ); }
}

namespace njoy { namespace dimwits_shim {} }
#endif
