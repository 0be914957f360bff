// an arbitrary text in place of std::string
#pragma once
#include <string>
static const char* vp_text;
static std::size_t vp_text_n;
extern "C" {
const char* on_text_begin(const void*) { return vp_text; }
const char* on_text_end(const void*) { return vp_text + vp_text_n; }
std::size_t on_text_size(const void*) { return vp_text_n; }
bool on_text_empty(const void*) { return vp_text_n == 0; }
const char* on_text_at(const void*, std::size_t i) { return vp_text + i; }
}
static void text_is_modelled() {
#define T "?std::basic_string::"
    vp_replace(T "begin", "on_text_begin"); vp_replace(T "end", "on_text_end");
    vp_replace(T "cbegin", "on_text_begin"); vp_replace(T "cend", "on_text_end");
    vp_replace(T "size", "on_text_size"); vp_replace(T "length", "on_text_size"); vp_replace(T "empty", "on_text_empty");
    vp_replace(T "operator[]", "on_text_at"); vp_replace(T "at", "on_text_at");
    vp_replace(T "data", "on_text_begin"); vp_replace(T "c_str", "on_text_begin");
#undef T
}
