// Stand-in for mockturtle/traits.hpp (generated by gen_traits.py).
#ifndef STANDIN_MT_TRAITS
#define STANDIN_MT_TRAITS
#include <cstdint>
#include <iterator>
#include <map>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <kitty/dynamic_truth_table.hpp>
#include <kitty/traits.hpp>
namespace mockturtle
{
template <class Ntk> using signal  = typename Ntk::signal;
template <class Ntk> using node    = typename Ntk::node;
template <class Ntk> using storage_t = typename Ntk::storage;
template <class Ntk, class = void> struct is_network_type : std::false_type {};
template <class Ntk>
struct is_network_type<Ntk, std::enable_if_t<(Ntk::max_fanin_size + Ntk::min_fanin_size >= 0), std::void_t<typename Ntk::base_type, typename Ntk::signal, typename Ntk::node, typename Ntk::storage, decltype(Ntk::max_fanin_size), decltype(Ntk::min_fanin_size)>>> : std::true_type {};
template <class Ntk> inline constexpr bool is_network_type_v = is_network_type<Ntk>::value;
template <class Ntk, class = void> struct is_topologically_sorted : std::false_type {};
template <class Ntk> struct is_topologically_sorted<Ntk, std::enable_if_t<Ntk::is_topologically_sorted, std::void_t<decltype(Ntk::is_topologically_sorted)>>> : std::true_type {};
template <class Ntk> inline constexpr bool is_topologically_sorted_v = is_topologically_sorted<Ntk>::value;
template <class Ntk, class = void> struct is_buffered_network_type : std::false_type {};
template <class Ntk> inline constexpr bool is_buffered_network_type_v = is_buffered_network_type<Ntk>::value;
template <class Ntk, class = void> struct is_crossed_network_type : std::false_type {};
template <class Ntk> inline constexpr bool is_crossed_network_type_v = is_crossed_network_type<Ntk>::value;
template <class Iterator, class T>
using iterates_over_t = std::enable_if_t<std::is_same_v<typename std::iterator_traits<Iterator>::value_type, T>, T>;
template <class Iterator>
using iterates_over_truth_table_t = std::enable_if_t<kitty::is_truth_table<typename std::iterator_traits<Iterator>::value_type>::value, typename std::iterator_traits<Iterator>::value_type>;
template <class Iterator, class T> inline constexpr bool iterates_over_v = std::is_same_v<typename std::iterator_traits<Iterator>::value_type, T>;
template <class Ntk, class = void> struct has_EXODC_interface : std::false_type {};
template <class Ntk> struct has_EXODC_interface<Ntk, std::void_t<decltype(std::declval<Ntk>().build_oec_network())>> : std::true_type {};
template <class Ntk> inline constexpr bool has_EXODC_interface_v = has_EXODC_interface<Ntk>::value;
template <class Ntk, class = void> struct has_at_rank_position : std::false_type {};
template <class Ntk> struct has_at_rank_position<Ntk, std::void_t<decltype(std::declval<Ntk>().at_rank_position( std::declval<uint32_t>(), std::declval<uint32_t>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_at_rank_position_v = has_at_rank_position<Ntk>::value;
template <class Ntk, class = void> struct has_ci_at : std::false_type {};
template <class Ntk> struct has_ci_at<Ntk, std::void_t<decltype(std::declval<Ntk>().ci_at( std::declval<uint32_t>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_ci_at_v = has_ci_at<Ntk>::value;
template <class Ntk, class = void> struct has_clear_colors : std::false_type {};
template <class Ntk> struct has_clear_colors<Ntk, std::void_t<decltype(std::declval<Ntk>().clear_colors(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_clear_colors_v = has_clear_colors<Ntk>::value;
template <class Ntk, class = void> struct has_clear_values : std::false_type {};
template <class Ntk> struct has_clear_values<Ntk, std::void_t<decltype(std::declval<Ntk>().clear_values(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_clear_values_v = has_clear_values<Ntk>::value;
template <class Ntk, class = void> struct has_clear_visited : std::false_type {};
template <class Ntk> struct has_clear_visited<Ntk, std::void_t<decltype(std::declval<Ntk>().clear_visited(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_clear_visited_v = has_clear_visited<Ntk>::value;
template <class Ntk, class = void> struct has_clone : std::false_type {};
template <class Ntk> struct has_clone<Ntk, std::void_t<decltype(std::declval<Ntk>().clone(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_clone_v = has_clone<Ntk>::value;
template <class Ntk, class = void> struct has_clone_node : std::false_type {};
template <class Ntk> struct has_clone_node<Ntk, std::void_t<decltype(std::declval<Ntk>().clone_node( std::declval<Ntk>(), std::declval<node<Ntk>>(), std::declval<std::vector<signal<Ntk>>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_clone_node_v = has_clone_node<Ntk>::value;
template <class Ntk, class = void> struct has_color : std::false_type {};
template <class Ntk> struct has_color<Ntk, std::void_t<decltype(std::declval<Ntk>().color( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_color_v = has_color<Ntk>::value;
template <class Ntk, class = void> struct has_constant_value : std::false_type {};
template <class Ntk> struct has_constant_value<Ntk, std::void_t<decltype(std::declval<Ntk>().constant_value( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_constant_value_v = has_constant_value<Ntk>::value;
template <class Ntk, class = void> struct has_create_and : std::false_type {};
template <class Ntk> struct has_create_and<Ntk, std::void_t<decltype(std::declval<Ntk>().create_and( std::declval<signal<Ntk>>(), std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_and_v = has_create_and<Ntk>::value;
template <class Ntk, class = void> struct has_create_buf : std::false_type {};
template <class Ntk> struct has_create_buf<Ntk, std::void_t<decltype(std::declval<Ntk>().create_buf( std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_buf_v = has_create_buf<Ntk>::value;
template <class Ntk, class = void> struct has_create_ge : std::false_type {};
template <class Ntk> struct has_create_ge<Ntk, std::void_t<decltype(std::declval<Ntk>().create_ge( std::declval<signal<Ntk>>(), std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_ge_v = has_create_ge<Ntk>::value;
template <class Ntk, class = void> struct has_create_gt : std::false_type {};
template <class Ntk> struct has_create_gt<Ntk, std::void_t<decltype(std::declval<Ntk>().create_gt( std::declval<signal<Ntk>>(), std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_gt_v = has_create_gt<Ntk>::value;
template <class Ntk, class = void> struct has_create_ite : std::false_type {};
template <class Ntk> struct has_create_ite<Ntk, std::void_t<decltype(std::declval<Ntk>().create_ite( std::declval<signal<Ntk>>(), std::declval<signal<Ntk>>(), std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_ite_v = has_create_ite<Ntk>::value;
template <class Ntk, class = void> struct has_create_le : std::false_type {};
template <class Ntk> struct has_create_le<Ntk, std::void_t<decltype(std::declval<Ntk>().create_le( std::declval<signal<Ntk>>(), std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_le_v = has_create_le<Ntk>::value;
template <class Ntk, class = void> struct has_create_lt : std::false_type {};
template <class Ntk> struct has_create_lt<Ntk, std::void_t<decltype(std::declval<Ntk>().create_lt( std::declval<signal<Ntk>>(), std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_lt_v = has_create_lt<Ntk>::value;
template <class Ntk, class = void> struct has_create_maj : std::false_type {};
template <class Ntk> struct has_create_maj<Ntk, std::void_t<decltype(std::declval<Ntk>().create_maj( std::declval<signal<Ntk>>(), std::declval<signal<Ntk>>(), std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_maj_v = has_create_maj<Ntk>::value;
template <class Ntk, class = void> struct has_create_nand : std::false_type {};
template <class Ntk> struct has_create_nand<Ntk, std::void_t<decltype(std::declval<Ntk>().create_nand( std::declval<signal<Ntk>>(), std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_nand_v = has_create_nand<Ntk>::value;
template <class Ntk, class = void> struct has_create_nary_and : std::false_type {};
template <class Ntk> struct has_create_nary_and<Ntk, std::void_t<decltype(std::declval<Ntk>().create_nary_and( std::declval<std::vector<signal<Ntk>>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_nary_and_v = has_create_nary_and<Ntk>::value;
template <class Ntk, class = void> struct has_create_nary_or : std::false_type {};
template <class Ntk> struct has_create_nary_or<Ntk, std::void_t<decltype(std::declval<Ntk>().create_nary_or( std::declval<std::vector<signal<Ntk>>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_nary_or_v = has_create_nary_or<Ntk>::value;
template <class Ntk, class = void> struct has_create_nary_xor : std::false_type {};
template <class Ntk> struct has_create_nary_xor<Ntk, std::void_t<decltype(std::declval<Ntk>().create_nary_xor( std::declval<std::vector<signal<Ntk>>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_nary_xor_v = has_create_nary_xor<Ntk>::value;
template <class Ntk, class = void> struct has_create_node : std::false_type {};
template <class Ntk> struct has_create_node<Ntk, std::void_t<decltype(std::declval<Ntk>().create_node( std::declval<std::vector<signal<Ntk>>>(), std::declval<kitty::dynamic_truth_table>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_node_v = has_create_node<Ntk>::value;
template <class Ntk, class = void> struct has_create_nor : std::false_type {};
template <class Ntk> struct has_create_nor<Ntk, std::void_t<decltype(std::declval<Ntk>().create_nor( std::declval<signal<Ntk>>(), std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_nor_v = has_create_nor<Ntk>::value;
template <class Ntk, class = void> struct has_create_not : std::false_type {};
template <class Ntk> struct has_create_not<Ntk, std::void_t<decltype(std::declval<Ntk>().create_not( std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_not_v = has_create_not<Ntk>::value;
template <class Ntk, class = void> struct has_create_or : std::false_type {};
template <class Ntk> struct has_create_or<Ntk, std::void_t<decltype(std::declval<Ntk>().create_or( std::declval<signal<Ntk>>(), std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_or_v = has_create_or<Ntk>::value;
template <class Ntk, class = void> struct has_create_pi : std::false_type {};
template <class Ntk> struct has_create_pi<Ntk, std::void_t<decltype(std::declval<Ntk>().create_pi(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_pi_v = has_create_pi<Ntk>::value;
template <class Ntk, class = void> struct has_create_po : std::false_type {};
template <class Ntk> struct has_create_po<Ntk, std::void_t<decltype(std::declval<Ntk>().create_po( std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_po_v = has_create_po<Ntk>::value;
template <class Ntk, class = void> struct has_create_ri : std::false_type {};
template <class Ntk> struct has_create_ri<Ntk, std::void_t<decltype(std::declval<Ntk>().create_ri( std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_ri_v = has_create_ri<Ntk>::value;
template <class Ntk, class = void> struct has_create_ro : std::false_type {};
template <class Ntk> struct has_create_ro<Ntk, std::void_t<decltype(std::declval<Ntk>().create_ro(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_ro_v = has_create_ro<Ntk>::value;
template <class Ntk, class = void> struct has_create_xnor : std::false_type {};
template <class Ntk> struct has_create_xnor<Ntk, std::void_t<decltype(std::declval<Ntk>().create_xnor( std::declval<signal<Ntk>>(), std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_xnor_v = has_create_xnor<Ntk>::value;
template <class Ntk, class = void> struct has_create_xor : std::false_type {};
template <class Ntk> struct has_create_xor<Ntk, std::void_t<decltype(std::declval<Ntk>().create_xor( std::declval<signal<Ntk>>(), std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_xor_v = has_create_xor<Ntk>::value;
template <class Ntk, class = void> struct has_create_xor3 : std::false_type {};
template <class Ntk> struct has_create_xor3<Ntk, std::void_t<decltype(std::declval<Ntk>().create_xor3( std::declval<signal<Ntk>>(), std::declval<signal<Ntk>>(), std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_create_xor3_v = has_create_xor3<Ntk>::value;
template <class Ntk, class = void> struct has_current_color : std::false_type {};
template <class Ntk> struct has_current_color<Ntk, std::void_t<decltype(std::declval<Ntk>().current_color(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_current_color_v = has_current_color<Ntk>::value;
template <class Ntk, class = void> struct has_decr_value : std::false_type {};
template <class Ntk> struct has_decr_value<Ntk, std::void_t<decltype(std::declval<Ntk>().decr_value( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_decr_value_v = has_decr_value<Ntk>::value;
template <class Ntk, class = void> struct has_depth : std::false_type {};
template <class Ntk> struct has_depth<Ntk, std::void_t<decltype(std::declval<Ntk>().depth(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_depth_v = has_depth<Ntk>::value;
template <class Ntk, class = void> struct has_eval_color : std::false_type {};
template <class Ntk> struct has_eval_color<Ntk, std::void_t<decltype(std::declval<Ntk>().eval_color( std::declval<node<Ntk>>(), std::declval<bool(*)(uint32_t)>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_eval_color_v = has_eval_color<Ntk>::value;
template <class Ntk, class = void> struct has_eval_fanins_color : std::false_type {};
template <class Ntk> struct has_eval_fanins_color<Ntk, std::void_t<decltype(std::declval<Ntk>().eval_fanins_color( std::declval<node<Ntk>>(), std::declval<bool(*)(uint32_t)>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_eval_fanins_color_v = has_eval_fanins_color<Ntk>::value;
template <class Ntk, class = void> struct has_fanin_size : std::false_type {};
template <class Ntk> struct has_fanin_size<Ntk, std::void_t<decltype(std::declval<Ntk>().fanin_size( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_fanin_size_v = has_fanin_size<Ntk>::value;
template <class Ntk, class = void> struct has_fanout_size : std::false_type {};
template <class Ntk> struct has_fanout_size<Ntk, std::void_t<decltype(std::declval<Ntk>().fanout_size( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_fanout_size_v = has_fanout_size<Ntk>::value;
template <class Ntk, class = void> struct has_foreach_ci : std::false_type {};
template <class Ntk> struct has_foreach_ci<Ntk, std::void_t<decltype(std::declval<Ntk>().foreach_ci( std::declval<void( node<Ntk>, uint32_t )>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_foreach_ci_v = has_foreach_ci<Ntk>::value;
template <class Ntk, class = void> struct has_foreach_co : std::false_type {};
template <class Ntk> struct has_foreach_co<Ntk, std::void_t<decltype(std::declval<Ntk>().foreach_co( std::declval<void( signal<Ntk>, uint32_t )>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_foreach_co_v = has_foreach_co<Ntk>::value;
template <class Ntk, class = void> struct has_foreach_fanin : std::false_type {};
template <class Ntk> struct has_foreach_fanin<Ntk, std::void_t<decltype(std::declval<Ntk>().foreach_fanin( std::declval<node<Ntk>>(), std::declval<void( signal<Ntk>, uint32_t )>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_foreach_fanin_v = has_foreach_fanin<Ntk>::value;
template <class Ntk, class = void> struct has_foreach_fanout : std::false_type {};
template <class Ntk> struct has_foreach_fanout<Ntk, std::void_t<decltype(std::declval<Ntk>().foreach_fanout( std::declval<node<Ntk>>(), std::declval<void( node<Ntk>, uint32_t )>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_foreach_fanout_v = has_foreach_fanout<Ntk>::value;
template <class Ntk, class = void> struct has_foreach_gate : std::false_type {};
template <class Ntk> struct has_foreach_gate<Ntk, std::void_t<decltype(std::declval<Ntk>().foreach_gate( std::declval<void( node<Ntk>, uint32_t )>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_foreach_gate_v = has_foreach_gate<Ntk>::value;
template <class Ntk, class = void> struct has_foreach_gate_in_rank : std::false_type {};
template <class Ntk> struct has_foreach_gate_in_rank<Ntk, std::void_t<decltype(std::declval<Ntk>().foreach_gate_in_rank( std::declval<uint32_t>(), std::declval<void( node<Ntk>, uint32_t )>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_foreach_gate_in_rank_v = has_foreach_gate_in_rank<Ntk>::value;
template <class Ntk, class = void> struct has_foreach_node : std::false_type {};
template <class Ntk> struct has_foreach_node<Ntk, std::void_t<decltype(std::declval<Ntk>().foreach_node( std::declval<void( node<Ntk>, uint32_t )>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_foreach_node_v = has_foreach_node<Ntk>::value;
template <class Ntk, class = void> struct has_foreach_node_in_rank : std::false_type {};
template <class Ntk> struct has_foreach_node_in_rank<Ntk, std::void_t<decltype(std::declval<Ntk>().foreach_node_in_rank( std::declval<uint32_t>(), std::declval<void( node<Ntk>, uint32_t )>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_foreach_node_in_rank_v = has_foreach_node_in_rank<Ntk>::value;
template <class Ntk, class = void> struct has_foreach_pi : std::false_type {};
template <class Ntk> struct has_foreach_pi<Ntk, std::void_t<decltype(std::declval<Ntk>().foreach_pi( std::declval<void( node<Ntk>, uint32_t )>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_foreach_pi_v = has_foreach_pi<Ntk>::value;
template <class Ntk, class = void> struct has_foreach_po : std::false_type {};
template <class Ntk> struct has_foreach_po<Ntk, std::void_t<decltype(std::declval<Ntk>().foreach_po( std::declval<void( signal<Ntk>, uint32_t )>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_foreach_po_v = has_foreach_po<Ntk>::value;
template <class Ntk, class = void> struct has_foreach_ri : std::false_type {};
template <class Ntk> struct has_foreach_ri<Ntk, std::void_t<decltype(std::declval<Ntk>().foreach_ri( std::declval<void( signal<Ntk>, uint32_t )>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_foreach_ri_v = has_foreach_ri<Ntk>::value;
template <class Ntk, class = void> struct has_foreach_ro : std::false_type {};
template <class Ntk> struct has_foreach_ro<Ntk, std::void_t<decltype(std::declval<Ntk>().foreach_ro( std::declval<void( node<Ntk>, uint32_t )>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_foreach_ro_v = has_foreach_ro<Ntk>::value;
template <class Ntk, class = void> struct has_get_constant : std::false_type {};
template <class Ntk> struct has_get_constant<Ntk, std::void_t<decltype(std::declval<Ntk>().get_constant( bool() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_get_constant_v = has_get_constant<Ntk>::value;
template <class Ntk, class = void> struct has_get_name : std::false_type {};
template <class Ntk> struct has_get_name<Ntk, std::void_t<decltype(std::declval<Ntk>().get_name( std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_get_name_v = has_get_name<Ntk>::value;
template <class Ntk, class = void> struct has_get_network_name : std::false_type {};
template <class Ntk> struct has_get_network_name<Ntk, std::void_t<decltype(std::declval<Ntk>().get_network_name(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_get_network_name_v = has_get_network_name<Ntk>::value;
template <class Ntk, class = void> struct has_get_node : std::false_type {};
template <class Ntk> struct has_get_node<Ntk, std::void_t<decltype(std::declval<Ntk>().get_node( std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_get_node_v = has_get_node<Ntk>::value;
template <class Ntk, class = void> struct has_get_output_name : std::false_type {};
template <class Ntk> struct has_get_output_name<Ntk, std::void_t<decltype(std::declval<Ntk>().get_output_name( std::declval<uint32_t>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_get_output_name_v = has_get_output_name<Ntk>::value;
template <class Ntk, class = void> struct has_has_name : std::false_type {};
template <class Ntk> struct has_has_name<Ntk, std::void_t<decltype(std::declval<Ntk>().has_name( std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_has_name_v = has_has_name<Ntk>::value;
template <class Ntk, class = void> struct has_has_output_name : std::false_type {};
template <class Ntk> struct has_has_output_name<Ntk, std::void_t<decltype(std::declval<Ntk>().has_output_name( std::declval<uint32_t>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_has_output_name_v = has_has_output_name<Ntk>::value;
template <class Ntk, class = void> struct has_incr_trav_id : std::false_type {};
template <class Ntk> struct has_incr_trav_id<Ntk, std::void_t<decltype(std::declval<Ntk>().incr_trav_id())>> : std::true_type {};
template <class Ntk> inline constexpr bool has_incr_trav_id_v = has_incr_trav_id<Ntk>::value;
template <class Ntk, class = void> struct has_incr_value : std::false_type {};
template <class Ntk> struct has_incr_value<Ntk, std::void_t<decltype(std::declval<Ntk>().incr_value( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_incr_value_v = has_incr_value<Ntk>::value;
template <class Ntk, class = void> struct has_index_to_node : std::false_type {};
template <class Ntk> struct has_index_to_node<Ntk, std::void_t<decltype(std::declval<Ntk>().index_to_node( std::declval<uint32_t>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_index_to_node_v = has_index_to_node<Ntk>::value;
template <class Ntk, class = void> struct has_is_and : std::false_type {};
template <class Ntk> struct has_is_and<Ntk, std::void_t<decltype(std::declval<Ntk>().is_and( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_and_v = has_is_and<Ntk>::value;
template <class Ntk, class = void> struct has_is_buf : std::false_type {};
template <class Ntk> struct has_is_buf<Ntk, std::void_t<decltype(std::declval<Ntk>().is_buf( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_buf_v = has_is_buf<Ntk>::value;
template <class Ntk, class = void> struct has_is_ci : std::false_type {};
template <class Ntk> struct has_is_ci<Ntk, std::void_t<decltype(std::declval<Ntk>().is_ci( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_ci_v = has_is_ci<Ntk>::value;
template <class Ntk, class = void> struct has_is_combinational : std::false_type {};
template <class Ntk> struct has_is_combinational<Ntk, std::void_t<decltype(std::declval<Ntk>().is_combinational(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_combinational_v = has_is_combinational<Ntk>::value;
template <class Ntk, class = void> struct has_is_complemented : std::false_type {};
template <class Ntk> struct has_is_complemented<Ntk, std::void_t<decltype(std::declval<Ntk>().is_complemented( std::declval<signal<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_complemented_v = has_is_complemented<Ntk>::value;
template <class Ntk, class = void> struct has_is_constant : std::false_type {};
template <class Ntk> struct has_is_constant<Ntk, std::void_t<decltype(std::declval<Ntk>().is_constant( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_constant_v = has_is_constant<Ntk>::value;
template <class Ntk, class = void> struct has_is_dead : std::false_type {};
template <class Ntk> struct has_is_dead<Ntk, std::void_t<decltype(std::declval<Ntk>().is_dead( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_dead_v = has_is_dead<Ntk>::value;
template <class Ntk, class = void> struct has_is_function : std::false_type {};
template <class Ntk> struct has_is_function<Ntk, std::void_t<decltype(std::declval<Ntk>().is_function( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_function_v = has_is_function<Ntk>::value;
template <class Ntk, class = void> struct has_is_ite : std::false_type {};
template <class Ntk> struct has_is_ite<Ntk, std::void_t<decltype(std::declval<Ntk>().is_ite( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_ite_v = has_is_ite<Ntk>::value;
template <class Ntk, class = void> struct has_is_maj : std::false_type {};
template <class Ntk> struct has_is_maj<Ntk, std::void_t<decltype(std::declval<Ntk>().is_maj( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_maj_v = has_is_maj<Ntk>::value;
template <class Ntk, class = void> struct has_is_nary_and : std::false_type {};
template <class Ntk> struct has_is_nary_and<Ntk, std::void_t<decltype(std::declval<Ntk>().is_nary_and( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_nary_and_v = has_is_nary_and<Ntk>::value;
template <class Ntk, class = void> struct has_is_nary_or : std::false_type {};
template <class Ntk> struct has_is_nary_or<Ntk, std::void_t<decltype(std::declval<Ntk>().is_nary_or( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_nary_or_v = has_is_nary_or<Ntk>::value;
template <class Ntk, class = void> struct has_is_nary_xor : std::false_type {};
template <class Ntk> struct has_is_nary_xor<Ntk, std::void_t<decltype(std::declval<Ntk>().is_nary_xor( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_nary_xor_v = has_is_nary_xor<Ntk>::value;
template <class Ntk, class = void> struct has_is_not : std::false_type {};
template <class Ntk> struct has_is_not<Ntk, std::void_t<decltype(std::declval<Ntk>().is_not( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_not_v = has_is_not<Ntk>::value;
template <class Ntk, class = void> struct has_is_on_critical_path : std::false_type {};
template <class Ntk> struct has_is_on_critical_path<Ntk, std::void_t<decltype(std::declval<Ntk>().is_on_critical_path( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_on_critical_path_v = has_is_on_critical_path<Ntk>::value;
template <class Ntk, class = void> struct has_is_or : std::false_type {};
template <class Ntk> struct has_is_or<Ntk, std::void_t<decltype(std::declval<Ntk>().is_or( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_or_v = has_is_or<Ntk>::value;
template <class Ntk, class = void> struct has_is_pi : std::false_type {};
template <class Ntk> struct has_is_pi<Ntk, std::void_t<decltype(std::declval<Ntk>().is_pi( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_pi_v = has_is_pi<Ntk>::value;
template <class Ntk, class = void> struct has_is_po : std::false_type {};
template <class Ntk> struct has_is_po<Ntk, std::void_t<decltype(std::declval<Ntk>().is_po( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_po_v = has_is_po<Ntk>::value;
template <class Ntk, class = void> struct has_is_ro : std::false_type {};
template <class Ntk> struct has_is_ro<Ntk, std::void_t<decltype(std::declval<Ntk>().is_ro( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_ro_v = has_is_ro<Ntk>::value;
template <class Ntk, class = void> struct has_is_xor : std::false_type {};
template <class Ntk> struct has_is_xor<Ntk, std::void_t<decltype(std::declval<Ntk>().is_xor( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_xor_v = has_is_xor<Ntk>::value;
template <class Ntk, class = void> struct has_is_xor3 : std::false_type {};
template <class Ntk> struct has_is_xor3<Ntk, std::void_t<decltype(std::declval<Ntk>().is_xor3( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_is_xor3_v = has_is_xor3<Ntk>::value;
template <class Ntk, class = void> struct has_level : std::false_type {};
template <class Ntk> struct has_level<Ntk, std::void_t<decltype(std::declval<Ntk>().level( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_level_v = has_level<Ntk>::value;
template <class Ntk, class = void> struct has_make_signal : std::false_type {};
template <class Ntk> struct has_make_signal<Ntk, std::void_t<decltype(std::declval<Ntk>().make_signal( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_make_signal_v = has_make_signal<Ntk>::value;
template <class Ntk, class = void> struct has_new_color : std::false_type {};
template <class Ntk> struct has_new_color<Ntk, std::void_t<decltype(std::declval<Ntk>().new_color(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_new_color_v = has_new_color<Ntk>::value;
template <class Ntk, class = void> struct has_node_function : std::false_type {};
template <class Ntk> struct has_node_function<Ntk, std::void_t<decltype(std::declval<Ntk>().node_function( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_node_function_v = has_node_function<Ntk>::value;
template <class Ntk, class = void> struct has_node_to_index : std::false_type {};
template <class Ntk> struct has_node_to_index<Ntk, std::void_t<decltype(std::declval<Ntk>().node_to_index( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_node_to_index_v = has_node_to_index<Ntk>::value;
template <class Ntk, class = void> struct has_num_cis : std::false_type {};
template <class Ntk> struct has_num_cis<Ntk, std::void_t<decltype(std::declval<Ntk>().num_cis(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_num_cis_v = has_num_cis<Ntk>::value;
template <class Ntk, class = void> struct has_num_cos : std::false_type {};
template <class Ntk> struct has_num_cos<Ntk, std::void_t<decltype(std::declval<Ntk>().num_cos(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_num_cos_v = has_num_cos<Ntk>::value;
template <class Ntk, class = void> struct has_num_gates : std::false_type {};
template <class Ntk> struct has_num_gates<Ntk, std::void_t<decltype(std::declval<Ntk>().num_gates(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_num_gates_v = has_num_gates<Ntk>::value;
template <class Ntk, class = void> struct has_num_latches : std::false_type {};
template <class Ntk> struct has_num_latches<Ntk, std::void_t<decltype(std::declval<Ntk>().num_latches(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_num_latches_v = has_num_latches<Ntk>::value;
template <class Ntk, class = void> struct has_num_pis : std::false_type {};
template <class Ntk> struct has_num_pis<Ntk, std::void_t<decltype(std::declval<Ntk>().num_pis(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_num_pis_v = has_num_pis<Ntk>::value;
template <class Ntk, class = void> struct has_num_pos : std::false_type {};
template <class Ntk> struct has_num_pos<Ntk, std::void_t<decltype(std::declval<Ntk>().num_pos(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_num_pos_v = has_num_pos<Ntk>::value;
template <class Ntk, class = void> struct has_num_registers : std::false_type {};
template <class Ntk> struct has_num_registers<Ntk, std::void_t<decltype(std::declval<Ntk>().num_registers(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_num_registers_v = has_num_registers<Ntk>::value;
template <class Ntk, class = void> struct has_paint : std::false_type {};
template <class Ntk> struct has_paint<Ntk, std::void_t<decltype(std::declval<Ntk>().paint( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_paint_v = has_paint<Ntk>::value;
template <class Ntk, class = void> struct has_pi_at : std::false_type {};
template <class Ntk> struct has_pi_at<Ntk, std::void_t<decltype(std::declval<Ntk>().pi_at( std::declval<uint32_t>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_pi_at_v = has_pi_at<Ntk>::value;
template <class Ntk, class = void> struct has_po_at : std::false_type {};
template <class Ntk> struct has_po_at<Ntk, std::void_t<decltype(std::declval<Ntk>().po_at( std::declval<uint32_t>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_po_at_v = has_po_at<Ntk>::value;
template <class Ntk, class = void> struct has_rank_position : std::false_type {};
template <class Ntk> struct has_rank_position<Ntk, std::void_t<decltype(std::declval<Ntk>().rank_position( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_rank_position_v = has_rank_position<Ntk>::value;
template <class Ntk, class = void> struct has_set_name : std::false_type {};
template <class Ntk> struct has_set_name<Ntk, std::void_t<decltype(std::declval<Ntk>().set_name( std::declval<signal<Ntk>>(), std::string() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_set_name_v = has_set_name<Ntk>::value;
template <class Ntk, class = void> struct has_set_network_name : std::false_type {};
template <class Ntk> struct has_set_network_name<Ntk, std::void_t<decltype(std::declval<Ntk>().set_network_name( std::string() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_set_network_name_v = has_set_network_name<Ntk>::value;
template <class Ntk, class = void> struct has_set_output_name : std::false_type {};
template <class Ntk> struct has_set_output_name<Ntk, std::void_t<decltype(std::declval<Ntk>().set_output_name( std::declval<uint32_t>(), std::string() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_set_output_name_v = has_set_output_name<Ntk>::value;
template <class Ntk, class = void> struct has_set_value : std::false_type {};
template <class Ntk> struct has_set_value<Ntk, std::void_t<decltype(std::declval<Ntk>().set_value( std::declval<node<Ntk>>(), std::declval<uint32_t>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_set_value_v = has_set_value<Ntk>::value;
template <class Ntk, class = void> struct has_set_visited : std::false_type {};
template <class Ntk> struct has_set_visited<Ntk, std::void_t<decltype(std::declval<Ntk>().set_visited( std::declval<node<Ntk>>(), std::declval<uint32_t>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_set_visited_v = has_set_visited<Ntk>::value;
template <class Ntk, class = void> struct has_size : std::false_type {};
template <class Ntk> struct has_size<Ntk, std::void_t<decltype(std::declval<Ntk>().size(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_size_v = has_size<Ntk>::value;
template <class Ntk, class = void> struct has_sort_rank : std::false_type {};
template <class Ntk> struct has_sort_rank<Ntk, std::void_t<decltype(std::declval<Ntk>().sort_rank( std::declval<uint32_t>(), std::declval<bool( node<Ntk>, node<Ntk> )>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_sort_rank_v = has_sort_rank<Ntk>::value;
template <class Ntk, class = void> struct has_swap : std::false_type {};
template <class Ntk> struct has_swap<Ntk, std::void_t<decltype(std::declval<Ntk>().swap( std::declval<node<Ntk>>(), std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_swap_v = has_swap<Ntk>::value;
template <class Ntk, class = void> struct has_trav_id : std::false_type {};
template <class Ntk> struct has_trav_id<Ntk, std::void_t<decltype(std::declval<Ntk>().trav_id(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_trav_id_v = has_trav_id<Ntk>::value;
template <class Ntk, class = void> struct has_update_levels : std::false_type {};
template <class Ntk> struct has_update_levels<Ntk, std::void_t<decltype(std::declval<Ntk>().update_levels(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_update_levels_v = has_update_levels<Ntk>::value;
template <class Ntk, class = void> struct has_value : std::false_type {};
template <class Ntk> struct has_value<Ntk, std::void_t<decltype(std::declval<Ntk>().value( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_value_v = has_value<Ntk>::value;
template <class Ntk, class = void> struct has_visited : std::false_type {};
template <class Ntk> struct has_visited<Ntk, std::void_t<decltype(std::declval<Ntk>().visited( std::declval<node<Ntk>>() ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_visited_v = has_visited<Ntk>::value;
template <class Ntk, class = void> struct has_width : std::false_type {};
template <class Ntk> struct has_width<Ntk, std::void_t<decltype(std::declval<Ntk>().width(  ))>> : std::true_type {};
template <class Ntk> inline constexpr bool has_width_v = has_width<Ntk>::value;
template <class Ntk, class T, class = void> struct has_compute : std::false_type {};
template <class Ntk, class T> struct has_compute<Ntk, T, std::void_t<decltype(std::declval<Ntk>().compute(std::declval<node<Ntk>>(), std::declval<T*>(), std::declval<T*>()))>> : std::true_type {};
template <class Ntk, class T> inline constexpr bool has_compute_v = has_compute<Ntk, T>::value;
}
#endif
