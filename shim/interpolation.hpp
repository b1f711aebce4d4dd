// Stand-in for njoy's interpolation library (not available offline): ENDF interpolation laws over
// one region, a choice of laws, and several regions.
#ifndef VERIF_SHIM_INTERPOLATION
#define VERIF_SHIM_INTERPOLATION
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace njoy {
namespace interpolation {

namespace detail {
  template< class T > double raw( const T& t ) {
    if constexpr ( std::is_arithmetic_v< T > ) return t; else return t.value; }
}
#define VERIF_LAW( NAME, EXPR )                                                                     \
  struct NAME { static double apply( double x, double x0, double x1, double y0, double y1 ) {       \
    (void)x; (void)x0; (void)x1; (void)y0; (void)y1; return EXPR; } };
VERIF_LAW( Histogram, y0 )
VERIF_LAW( LinearLinear, y0 + ( y1 - y0 ) * ( x - x0 ) / ( x1 - x0 ) )
VERIF_LAW( LinearLogarithmic, y0 + ( y1 - y0 ) * std::log( x / x0 ) / std::log( x1 / x0 ) )
VERIF_LAW( LogarithmicLinear, y0 * std::exp( std::log( y1 / y0 ) * ( x - x0 ) / ( x1 - x0 ) ) )
VERIF_LAW( LogarithmicLogarithmic, y0 * std::exp( std::log( y1 / y0 ) * std::log( x / x0 ) / std::log( x1 / x0 ) ) )
#undef VERIF_LAW

namespace table {
  namespace search { struct Binary {}; }
  namespace discontinuity { struct TakeLeft {}; }
  namespace left { namespace interval { struct Throws {}; } }
  namespace right { namespace interval { struct Throws {}; } }

  template< class Law, class Search, class Disc, class X, class Y > struct Type {
    using XT = std::decay_t< decltype( *std::begin( std::declval< X& >() ) ) >;
    using YT = std::decay_t< decltype( *std::begin( std::declval< Y& >() ) ) >;
    std::vector< XT > x_;
    std::vector< YT > y_;
    Type( X x, Y y ) {
      for ( auto&& v : x ) x_.push_back( v );
      for ( auto&& v : y ) y_.push_back( v );
      if ( x_.size() != y_.size() ) throw std::runtime_error( "interpolation table: sizes differ" );
      for ( std::size_t i = 1; i < x_.size(); ++i )
        if ( x_[i] < x_[i-1] ) throw std::runtime_error( "interpolation table: x values not sorted" );
    }
    XT front() const { return x_.front(); }
    XT back() const { return x_.back(); }
    YT operator()( const XT& x ) const {
      if ( x_.empty() or x < x_.front() or x_.back() < x or not ( x == x ) )
        throw std::out_of_range( "interpolation table: outside of the table" );
      auto it = std::lower_bound( x_.begin(), x_.end(), x ); // first >= x
      std::size_t i = it - x_.begin();
      if ( *it == x ) return y_[i];                          // at a jump: the left value
      return YT( Law::apply( detail::raw( x ), detail::raw( x_[i-1] ), detail::raw( x_[i] ),
                             detail::raw( y_[i-1] ), detail::raw( y_[i] ) ) );
    }
  };

  template< class... T > struct Variant : std::variant< T... > {
    using std::variant< T... >::variant;
    template< class X > auto operator()( const X& x ) const {
      return std::visit( [&] ( const auto& t ) { return t( x ); },
                         static_cast< const std::variant< T... >& >( *this ) ); }
    auto front() const { return std::visit( [] ( const auto& t ) { return t.front(); },
                                            static_cast< const std::variant< T... >& >( *this ) ); }
    auto back() const { return std::visit( [] ( const auto& t ) { return t.back(); },
                                           static_cast< const std::variant< T... >& >( *this ) ); }
  };

  template< class T > struct Vector {
    std::vector< T > tables_;
    Vector( std::vector< T > t ) : tables_( std::move( t ) ) {
      if ( tables_.empty() ) throw std::runtime_error( "interpolation table: no regions" );
    }
    auto front() const { return tables_.front().front(); }
    auto back() const { return tables_.back().back(); }
    template< class X > auto operator()( const X& x ) const {
      for ( const auto& t : tables_ ) if ( not ( t.back() < x ) ) return t( x );
      return tables_.back()( x ); // throws
    }
  };
}

template< class Core, class... Bounds > struct Table : Core {
  using Core::Core;
};

namespace table {
  template< class Law, class X, class Y > auto make( X x, Y y ) {
    return Table< Type< Law, search::Binary, discontinuity::TakeLeft, X, Y > >( std::move( x ), std::move( y ) );
  }
}
}
}
#endif
