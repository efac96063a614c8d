// Stand-in: the search only uses the interruption point, which does nothing unless another thread interrupts it.
#ifndef BOOST_THREAD_STANDIN
#define BOOST_THREAD_STANDIN
#include <set>
#include <deque>
#include <map>
#include <string>
namespace boost { namespace this_thread { inline void interruption_point() {} } }
#endif
