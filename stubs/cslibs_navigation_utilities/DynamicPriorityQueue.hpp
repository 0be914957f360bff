// Interface stand-in: a priority container ordered by Compare at the time of push.
#pragma once
#include <deque>
#include <set>
#include <vector>
#include <cstddef>
template <class T, class Compare>
struct DynamicPrioritySet {
    typedef typename std::multiset<T, Compare>::const_iterator const_iterator;
    void push(T t);
    void remove(T t);
    T top() const;
    void pop();
    bool empty() const;
    std::size_t size() const;
    const_iterator begin() const;
    const_iterator end() const;
    std::multiset<T, Compare> data;
};
