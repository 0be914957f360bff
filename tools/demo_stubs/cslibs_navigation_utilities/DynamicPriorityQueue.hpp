// Stand-in of the external helper: a list that delivers the first of the best elements.
#pragma once
#include <cstddef>
#include <cstring>
#include <deque>
#include <set>
#include <vector>
template <class T, class Compare>
struct DynamicPrioritySet {
    typedef typename std::vector<T>::const_iterator const_iterator;
    void push(T t) { remove(t); data.push_back(t); }
    void remove(T t) { for (std::size_t i = 0; i < data.size(); ++i) if (data[i] == t) { data.erase(data.begin() + i); return; } }
    std::size_t best() const { std::size_t b = 0; for (std::size_t i = 1; i < data.size(); ++i) if (Compare()(data[b], data[i])) b = i; return b; }
    T top() const { return data[best()]; }
    void pop() { data.erase(data.begin() + best()); }
    bool empty() const { return data.empty(); }
    std::size_t size() const { return data.size(); }
    const_iterator begin() const { return data.begin(); }
    const_iterator end() const { return data.end(); }
    std::vector<T> data;
};
