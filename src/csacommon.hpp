// Building compressed suffix arrays / trees from generated texts, shared by the CSA and CST harnesses.
#pragma once
#include "textgen.hpp"
#include <sdsl/suffix_arrays.hpp>

template<class T> struct index_is_byte { enum { value = T::alphabet_category::WIDTH == 8 }; };

// text for an index of type T: byte text, or integer text whose largest symbol has at most maxbits bits
template<class T> std::vector<uint64_t> index_text(pbt::Src& s, pbt::Ctx& c, size_t max, unsigned maxbits = 18)
{
    if (index_is_byte<T>::value) {
        auto t = byte_text(s, max);
        c.describe([&] { return "text " + text_str(t, true) + " "; });
        return t;
    }
    auto t = int_text(s, max, s.b() ? sdsl::bits::lo_set[s.in(1, maxbits)] : std::max<uint64_t>(1, s.val(maxbits)));
    c.describe([&] { return "integer text " + pbt::vec(t) + " "; });
    return t;
}
template<class T> void index_build(T& idx, const std::vector<uint64_t>& text, unsigned width = 0)
{
    if (index_is_byte<T>::value) {
        sdsl::construct_im(idx, std::string(text.begin(), text.end()), 1);
    } else {
        uint64_t mx = 1;
        for (auto x : text) mx = std::max(mx, x);
        sdsl::int_vector<> v(text.size(), 0, width ? std::max<unsigned>(width, sdsl::bits::hi(mx) + 1) : sdsl::bits::hi(mx) + 1);
        for (size_t i = 0; i < text.size(); ++i) v[i] = text[i];
        sdsl::construct_im(idx, v, 0);
    }
}
template<class T> typename T::string_type index_string(const T&, const std::vector<uint64_t>& v)
{
    return typename T::string_type(v.begin(), v.end());
}
