// Shared by the wavelet tree harnesses: types (by PART), sequence generator, construction.
#pragma once
#include "gen.hpp"
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/bit_vectors.hpp>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

// sequence over [0,max]; shapes for runs, skewed frequencies, all-different, sparse alphabets
static vector<uint64_t> wt_seq(Src& s, size_t maxlen, uint64_t max)
{
    unsigned w = bits::hi(max) + 1;
    vector<uint64_t> v;
    switch (s.pick({4, 3, 2, 2, 2, 2})) {
        case 0: v = gen::ints(s, maxlen, w); break;
        case 1: { // runs over a small random alphabet
            size_t n = s.len(maxlen), A = 1 + s.u(40);
            Rng r(s.seed());
            vector<uint64_t> al;
            for (size_t i = 0; i < A; ++i) al.push_back(r.upto(max));
            uint64_t m = 1 + s.u(150);
            while (v.size() < n) v.insert(v.end(), 1 + r.below(m), al[r.below(A)]);
            v.resize(n);
            break;
        }
        case 2: { // fibonacci / geometric frequencies: deep code trees
            size_t n = s.len(maxlen), k = 1 + s.u(24);
            Rng r(s.seed());
            vector<uint64_t> al;
            for (size_t i = 0; i < k; ++i) al.push_back(r.upto(max));
            uint64_t a = 1, b = 1;
            for (size_t i = 0; i < k and v.size() < n; ++i) {
                v.insert(v.end(), std::min<uint64_t>(a, n - v.size()), al[i]);
                uint64_t c = a + b;
                a = b;
                b = c;
            }
            if (s.b()) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
            break;
        }
        case 3: { // every symbol of an interval, once or more
            size_t n = s.len(maxlen);
            uint64_t lo = s.u(max), cnt = std::min<uint64_t>(max - lo + 1 ? max - lo + 1 : ~0ULL, 1 + s.u(600));
            Rng r(s.seed());
            for (size_t i = 0; i < n; ++i) v.push_back(lo + (i < cnt ? i : r.below(cnt)));
            if (s.b()) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
            break;
        }
        case 4: { // symbols at powers of two and neighbours
            size_t n = s.len(maxlen);
            Rng r(s.seed());
            for (size_t i = 0; i < n; ++i) v.push_back((1ULL << r.below(w)) - r.below(2));
            break;
        }
        default: { // blocks over disjoint alphabets (changing locally)
            size_t n = s.len(maxlen);
            Rng r(s.seed());
            uint64_t base = 0, span = 1;
            for (size_t i = 0; i < n; ++i) {
                if (i % 97 == 0) {
                    base = r.upto(max);
                    span = 1 + r.below(9);
                }
                v.push_back(base + r.below(span));
            }
        }
    }
    for (auto& x : v) if (x > max) x = max == ~0ULL ? x : x % (max + 1);
    return v;
}

static int g_file_id = 0;
template<class WT> struct wt_width {
    enum { value = WT::alphabet_category::WIDTH };
};
// builds wt over seq, by one of the documented routes
template<class WT> void wt_build(WT& wt, const vector<uint64_t>& seq, Src& s, Ctx& c)
{
    const uint8_t W = WT::alphabet_category::WIDTH;
    size_t n = seq.size();
    size_t route = s.pick({2, 2, 1, 1});
    uint64_t mx = 0;
    for (auto x : seq) mx = std::max(mx, x);
    unsigned w = W ? W : std::max<unsigned>(bits::hi(mx) + 1, s.chance(1, 3) ? s.in(1, 64) : 1);
    size_t extra = route == 1 ? s.len(200) : 0; // the sequence is a proper prefix of the file
    int_vector<W> v(n + extra, 0, w);
    for (size_t i = 0; i < n; ++i) v[i] = seq[i];
    Rng r(s.seed());
    for (size_t i = n; i < n + extra; ++i) v[i] = n ? seq[r.below(n)] : r.upto(3) & bits::lo_set[w];
    if (route == 0) {
        c.label("construct_im");
        construct_im(wt, v);
    } else {
        string file = "@wt" + pbt::str(g_file_id++);
        store_to_file(v, file);
        if (route == 1) {
            c.label("prefix of buffer");
            int_vector_buffer<W> buf(file, std::ios::in, 1 + s.u(3000));
            wt = WT(buf, n);
        } else if (route == 2) {
            c.label("construct from file");
            construct(wt, file, 0);
        } else {
            c.label("assigned over old content");
            int_vector<W> o(1 + s.u(50), 0, W ? W : 9);
            for (size_t i = 0; i < o.size(); ++i) o[i] = r.below(200);
            construct_im(wt, o);
            int_vector_buffer<W> buf(file);
            wt = WT(buf, n);
        }
        sdsl::remove(file);
    }
}

#define WT_TYPEDEF(name, ...) typedef __VA_ARGS__ name;
WT_TYPEDEF(wpb_t, wt_pc<balanced_shape>)
WT_TYPEDEF(hutu_il_t, wt_hutu<bit_vector_il<>>)
WT_TYPEDEF(huff_rrr_t, wt_huff<rrr_vector<63>>)
WT_TYPEDEF(blcd_rrr_t, wt_blcd<rrr_vector<63>>)
WT_TYPEDEF(hutu_rrr_t, wt_hutu<rrr_vector<15>>)
WT_TYPEDEF(huff_v5_t, wt_huff<bit_vector, rank_support_v5<>>)
WT_TYPEDEF(huff_il_t, wt_huff<bit_vector_il<256>>)
WT_TYPEDEF(rlmn_sd_t, wt_rlmn<>)
WT_TYPEDEF(rlmn_bv_t, wt_rlmn<bit_vector>)
WT_TYPEDEF(gmrrs_t, wt_gmr_rs<>)
WT_TYPEDEF(gmr_t, wt_gmr<>)
WT_TYPEDEF(gmr_enc_t, wt_gmr<enc_vector<>, inv_multi_perm_support<8, enc_vector<>>>)
WT_TYPEDEF(gmrrs_enc_t, wt_gmr_rs<dac_vector<>, rrr_vector<63>>)
WT_TYPEDEF(blcd_int_t, wt_blcd<bit_vector, rank_support_v<>, select_support_mcl<1>, select_support_mcl<0>, int_tree<>>)
WT_TYPEDEF(huff_int_t, wt_huff<bit_vector, rank_support_v<>, select_support_mcl<1>, select_support_mcl<0>, int_tree<>>)
WT_TYPEDEF(hutu_int_t, wt_hutu<bit_vector, rank_support_v<>, select_support_mcl<1>, select_support_mcl<0>, int_tree<>>)
WT_TYPEDEF(huff_int_rrr_t, wt_huff<rrr_vector<63>, rrr_vector<63>::rank_1_type, rrr_vector<63>::select_1_type, rrr_vector<63>::select_0_type, int_tree<>>)
WT_TYPEDEF(wtint_t, wt_int<>)
WT_TYPEDEF(wmint_t, wm_int<>)
WT_TYPEDEF(wtint_rrr_t, wt_int<rrr_vector<63>>)
WT_TYPEDEF(wmint_rrr_t, wm_int<rrr_vector<15>>)
WT_TYPEDEF(wtint_v5_t, wt_int<bit_vector, rank_support_v5<>, select_support_scan<1>, select_support_scan<0>>)
WT_TYPEDEF(wap_t, wt_ap<>)
WT_TYPEDEF(rlmn_int_t, wt_rlmn<bit_vector, rank_support_v5<>, select_support_mcl<1>, wt_int<>>)
WT_TYPEDEF(blcd_bfs_t, wt_blcd<bit_vector, rank_support_v<>, select_support_mcl<1>, select_support_mcl<0>, byte_tree<false>>)
// The lists: WT(type, label, largest symbol, weight)
