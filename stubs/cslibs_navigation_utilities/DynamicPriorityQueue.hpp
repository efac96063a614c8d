// Stand-in for cslibs_navigation_utilities (not installed here): a priority set.
// next() yields an element no other element precedes under the CURRENT keys.
#ifndef DYNAMICPRIORITYQUEUE_STANDIN
#define DYNAMICPRIORITYQUEUE_STANDIN
#include <algorithm>
#include <cstddef>
#include <functional>
#include <vector>
template <class T, class Cmp = std::less<T> >
class DynamicPrioritySet {
    std::vector<T> v;
    size_t best() const {
        Cmp c;
        size_t b = 0;
        for (size_t i = 1; i < v.size(); ++i) if (c(v[b], v[i])) b = i;
        return b;
    }
public:
    typedef typename std::vector<T>::const_iterator const_iterator;
    void push(const T &x) { v.push_back(x); }
    const T &top() const { return v[best()]; }
    void pop() { v.erase(v.begin() + best()); }
    void remove(const T &x) { v.erase(std::remove(v.begin(), v.end(), x), v.end()); }
    bool empty() const { return v.empty(); }
    std::size_t size() const { return v.size(); }
    void clear() { v.clear(); }
    const_iterator begin() const { return v.begin(); }
    const_iterator end() const { return v.end(); }
};
#endif
