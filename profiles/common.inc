inline std::(min|max|move|forward|addressof|__addressof|get|swap|for_each|copy|__copy.*|__niter.*|__miter.*|find_if|__find_if|any_of|all_of|none_of|accumulate|transform|exchange|__exchange|ref|advance|__advance|next|prev|__iterator_category|begin|end|cbegin|cend|lock|lock_guard::.*|unique_lock::.*|scoped_lock::.*|unique_ptr::.*|__uniq_ptr_impl::.*|default_delete::.*|make_unique|initializer_list::.*|tuple::.*|_Tuple_impl::.*|_Head_base::.*|pair::.*|make_pair|__get_helper|reference_wrapper::.*|as_const|launder|construct_at|destroy_at|_Destroy|numeric_limits::.*|array::.*|__array_traits::.*|fill_n|__fill.*)
inline __gnu_cxx::__ops::.*
inline __gnu_cxx::__normal_iterator::.*
inline __gnu_cxx::operator.*
