// Stand-in for range-v3's group_by: the version njoy/resonanceReconstruction was written for gives a
// view that can be iterated when const (0.12's cannot).  Groups are found eagerly: a group extends
// while pred( first of group, element ) holds.
#ifndef VERIF_SHIM_GROUP_BY
#define VERIF_SHIM_GROUP_BY
#include <memory>
#include <vector>
#include <range/v3/range_fwd.hpp>
#include <range/v3/iterator_range.hpp>
#include <range/v3/view/all.hpp>
#include <range/v3/view/drop_exactly.hpp>
#include <range/v3/view/interface.hpp>
#include <range/v3/view/subrange.hpp>
#include <range/v3/view/view.hpp>
namespace ranges {
  template< typename Rng > struct shim_group_by_view : view_interface< shim_group_by_view< Rng >, finite > {
    using It = iterator_t< Rng >;
    using Group = subrange< It, It >;
    std::shared_ptr< Rng > base_;
    std::shared_ptr< std::vector< Group > > groups_;
    shim_group_by_view() = default;
    template< typename Pred > shim_group_by_view( Rng rng, Pred pred ) :
        base_( std::make_shared< Rng >( std::move( rng ) ) ),
        groups_( std::make_shared< std::vector< Group > >() ) {
      auto b = ranges::begin( *base_ );
      auto e = ranges::end( *base_ );
      while ( b != e ) {
        auto n = b; ++n;
        while ( n != e and pred( *b, *n ) ) ++n;
        groups_->push_back( Group( b, n ) );
        b = n;
      }
    }
    auto begin() const { return groups_->begin(); }
    auto end() const { return groups_->end(); }
  };
  namespace views {
    struct shim_group_by_fn {
      template< typename Rng, typename Pred > auto operator()( Rng&& rng, Pred pred ) const {
        return shim_group_by_view< all_t< Rng > >( all( static_cast< Rng&& >( rng ) ), std::move( pred ) );
      }
      template< typename Pred > auto operator()( Pred pred ) const {
        return make_view_closure( [ pred ] ( auto&& rng ) {
          using R = decltype( rng );
          return shim_group_by_view< all_t< R > >( all( static_cast< R >( rng ) ), pred ); } );
      }
    };
    inline constexpr shim_group_by_fn group_by{};
  }
}
#endif
