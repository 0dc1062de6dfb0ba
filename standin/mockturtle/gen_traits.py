# (name, parameters of the expression): has_<name> is true iff the expression is well formed
N='std::declval<node<Ntk>>()'; S='std::declval<signal<Ntk>>()'; U='std::declval<uint32_t>()'; STR='std::string()'
F={}
def m(names, *args):
    for n in names.split(): F[n]='std::declval<Ntk>().%s( %s )'%(n,', '.join(args))
m('clone size num_cis num_cos num_pis num_pos num_gates num_registers num_latches depth width trav_id update_levels clear_values clear_visited clear_colors current_color new_color get_network_name is_combinational')
F['incr_trav_id']='std::declval<Ntk>().incr_trav_id()'
m('create_pi create_ro')
m('create_po create_ri create_not create_buf is_complemented', S)
for n in 'get_node node_to_index'.split(): pass
m('get_node', S)
m('create_and create_nand create_or create_nor create_lt create_le create_gt create_ge create_xor create_xnor', S, S)
m('create_maj create_ite create_xor3', S, S, S)
m('create_nary_and create_nary_or create_nary_xor', 'std::declval<std::vector<signal<Ntk>>>()')
m('create_node', 'std::declval<std::vector<signal<Ntk>>>()', 'std::declval<kitty::dynamic_truth_table>()')
m('clone_node', 'std::declval<Ntk>()', N, 'std::declval<std::vector<signal<Ntk>>>()')
m('make_signal node_to_index node_function is_constant is_pi is_ci is_po is_ro constant_value fanin_size fanout_size is_function is_and is_or is_xor is_maj is_ite is_xor3 is_nary_and is_nary_or is_nary_xor is_buf is_not is_dead level is_on_critical_path value incr_value decr_value visited rank_position color', N)
m('index_to_node', U)
m('pi_at ci_at', U); m('po_at', U)
m('at_rank_position', U, U)
m('swap', N, N)
m('get_constant', 'bool()')
m('set_value set_visited', N, U)
m('paint', N)
F['eval_color']='std::declval<Ntk>().eval_color( %s, std::declval<bool(*)(uint32_t)>() )'%N
F['eval_fanins_color']='std::declval<Ntk>().eval_fanins_color( %s, std::declval<bool(*)(uint32_t)>() )'%N
F['foreach_node']='std::declval<Ntk>().foreach_node( std::declval<void( node<Ntk>, uint32_t )>() )'
F['foreach_gate']='std::declval<Ntk>().foreach_gate( std::declval<void( node<Ntk>, uint32_t )>() )'
F['foreach_pi']='std::declval<Ntk>().foreach_pi( std::declval<void( node<Ntk>, uint32_t )>() )'
F['foreach_ci']='std::declval<Ntk>().foreach_ci( std::declval<void( node<Ntk>, uint32_t )>() )'
F['foreach_po']='std::declval<Ntk>().foreach_po( std::declval<void( signal<Ntk>, uint32_t )>() )'
F['foreach_co']='std::declval<Ntk>().foreach_co( std::declval<void( signal<Ntk>, uint32_t )>() )'
F['foreach_ri']='std::declval<Ntk>().foreach_ri( std::declval<void( signal<Ntk>, uint32_t )>() )'
F['foreach_ro']='std::declval<Ntk>().foreach_ro( std::declval<void( node<Ntk>, uint32_t )>() )'
F['foreach_fanin']='std::declval<Ntk>().foreach_fanin( %s, std::declval<void( signal<Ntk>, uint32_t )>() )'%N
F['foreach_fanout']='std::declval<Ntk>().foreach_fanout( %s, std::declval<void( node<Ntk>, uint32_t )>() )'%N
F['foreach_node_in_rank']='std::declval<Ntk>().foreach_node_in_rank( %s, std::declval<void( node<Ntk>, uint32_t )>() )'%U
F['foreach_gate_in_rank']='std::declval<Ntk>().foreach_gate_in_rank( %s, std::declval<void( node<Ntk>, uint32_t )>() )'%U
F['sort_rank']='std::declval<Ntk>().sort_rank( %s, std::declval<bool( node<Ntk>, node<Ntk> )>() )'%U
m('has_name get_name', S)
m('set_name', S, STR)
m('set_network_name', STR)
m('has_output_name get_output_name', U)
m('set_output_name', U, STR)
F['EXODC_interface']='std::declval<Ntk>().build_oec_network()'
o='''// Stand-in for mockturtle/traits.hpp (generated by gen_traits.py).
#ifndef STANDIN_MT_TRAITS
#define STANDIN_MT_TRAITS
#include <cstdint>
#include <iterator>
#include <map>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <kitty/dynamic_truth_table.hpp>
#include <kitty/traits.hpp>
namespace mockturtle
{
template <class Ntk> using signal  = typename Ntk::signal;
template <class Ntk> using node    = typename Ntk::node;
template <class Ntk> using storage_t = typename Ntk::storage;
template <class Ntk, class = void> struct is_network_type : std::false_type {};
template <class Ntk>
struct is_network_type<Ntk, std::enable_if_t<(Ntk::max_fanin_size + Ntk::min_fanin_size >= 0), std::void_t<typename Ntk::base_type, typename Ntk::signal, typename Ntk::node, typename Ntk::storage, decltype(Ntk::max_fanin_size), decltype(Ntk::min_fanin_size)>>> : std::true_type {};
template <class Ntk> inline constexpr bool is_network_type_v = is_network_type<Ntk>::value;
template <class Ntk, class = void> struct is_topologically_sorted : std::false_type {};
template <class Ntk> struct is_topologically_sorted<Ntk, std::enable_if_t<Ntk::is_topologically_sorted, std::void_t<decltype(Ntk::is_topologically_sorted)>>> : std::true_type {};
template <class Ntk> inline constexpr bool is_topologically_sorted_v = is_topologically_sorted<Ntk>::value;
template <class Ntk, class = void> struct is_buffered_network_type : std::false_type {};
template <class Ntk> inline constexpr bool is_buffered_network_type_v = is_buffered_network_type<Ntk>::value;
template <class Ntk, class = void> struct is_crossed_network_type : std::false_type {};
template <class Ntk> inline constexpr bool is_crossed_network_type_v = is_crossed_network_type<Ntk>::value;
template <class Iterator, class T>
using iterates_over_t = std::enable_if_t<std::is_same_v<typename std::iterator_traits<Iterator>::value_type, T>, T>;
template <class Iterator>
using iterates_over_truth_table_t = std::enable_if_t<kitty::is_truth_table<typename std::iterator_traits<Iterator>::value_type>::value, typename std::iterator_traits<Iterator>::value_type>;
template <class Iterator, class T> inline constexpr bool iterates_over_v = std::is_same_v<typename std::iterator_traits<Iterator>::value_type, T>;
'''
for n in sorted(F):
    o+='template <class Ntk, class = void> struct has_%s : std::false_type {};\ntemplate <class Ntk> struct has_%s<Ntk, std::void_t<decltype(%s)>> : std::true_type {};\ntemplate <class Ntk> inline constexpr bool has_%s_v = has_%s<Ntk>::value;\n'%(n,n,F[n],n,n)
o+='''template <class Ntk, class T, class = void> struct has_compute : std::false_type {};
template <class Ntk, class T> struct has_compute<Ntk, T, std::void_t<decltype(std::declval<Ntk>().compute(std::declval<node<Ntk>>(), std::declval<T*>(), std::declval<T*>()))>> : std::true_type {};
template <class Ntk, class T> inline constexpr bool has_compute_v = has_compute<Ntk, T>::value;
'''
o+='}\n#endif\n'
open('traits.hpp','w').write(o)
