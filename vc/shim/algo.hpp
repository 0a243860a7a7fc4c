// Plain-loop overload of the library's four-times unrolled std::__find_if (same contract: the first position in
// [first, last) satisfying pred, or last).  Only what the verifier sees; the build uses the library's own.
#ifndef VC_SHIM_ALGO
#define VC_SHIM_ALGO
#include <bits/c++config.h>
#include <utility>
#include <bits/stl_iterator_base_types.h>
#include <bits/stl_iterator_base_funcs.h>
#include <bits/stl_iterator.h>
namespace std
{
	template<typename P, typename C, typename Pred>
	__gnu_cxx::__normal_iterator<P, C> __find_if(__gnu_cxx::__normal_iterator<P, C> first,
	                                             __gnu_cxx::__normal_iterator<P, C> last,
	                                             Pred pred,
	                                             random_access_iterator_tag)
	{
		while(first != last)
		{
			if(pred(first)) { return first; }
			++first;
		}
		return last;
	}
	template<typename T, typename Pred>
	T* __find_if(T* first, T* last, Pred pred, random_access_iterator_tag)
	{
		while(first != last)
		{
			if(pred(first)) { return first; }
			++first;
		}
		return last;
	}
}
#include <algorithm>
#endif
