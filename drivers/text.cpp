// Entry points for P16. Nothing here is run: the analysis starts from these functions.
#include <ply-runtime/Base.h>
#include <ply-runtime/string/TextEncoding.h>
#include <ply-runtime/io/text/TextConverter.h>
#include <ply-runtime/io/text/NewLineFilter.h>
using namespace ply;

static void put(u32* out, DecodeResult r) {
    out[0] = (u32) r.point;
    out[1] = r.status == DecodeResult::Status::Valid ? 2 : r.status == DecodeResult::Status::Invalid ? 1 : 0;
    out[2] = r.numBytes;
}

#define ENC(name, Enc) \
    extern "C" void vp_##name##_decode(const char* p, u32 n, u32* out) { put(out, Enc::decodePoint({p, n})); } \
    extern "C" u32 vp_##name##_encode(char* p, u32 n, u32 point) { return Enc::encodePoint({p, n}, point); } \
    extern "C" u32 vp_##name##_size(u32 point) { return Enc::numBytes(point); } \
    extern "C" u32 vp_##name##_back(const char* p, u32 n) { return Enc::backNumBytes({p, n}); } \
    extern "C" void vp_##name##_tdecode(const char* p, u32 n, u32* out) { put(out, TextEncoding::get<Enc>()->decodePoint({p, n})); } \
    extern "C" u32 vp_##name##_tencode(char* p, u32 n, u32 point) { return TextEncoding::get<Enc>()->encodePoint({p, n}, point); } \
    extern "C" u32 vp_##name##_unit() { return TextEncoding::get<Enc>()->unitSize; }

ENC(bytes, Enc_Bytes)
ENC(utf8, UTF8)
ENC(utf16le, UTF16_LE)
ENC(utf16be, UTF16_BE)

// Convert p[0..s1), p[s1..s2) and p[s2..n) with at most `room` bytes of output per call; returns the number of bytes produced.
#define CONV(name, Dst, Src) \
    extern "C" u32 vp_conv_##name(const char* p, u32 s1, u32 s2, u32 n, u32 room, char* out) { \
        TextConverter conv{TextEncoding::get<Dst>(), TextEncoding::get<Src>()}; \
        u32 total = 0; \
        for (u32 part = 0; part < 3; part++) { \
            StringView src = part == 0 ? StringView{p, s1} : part == 1 ? StringView{p + s1, s2 - s1} : StringView{p + s2, n - s2}; \
            for (u32 i = 0; i < 60; i++) { \
                MutableStringView dst{out + total, room}; \
                bool did = conv.convert(&dst, &src, part == 2); \
                total += room - dst.numBytes; \
                if (!did) \
                    break; \
            } \
            if (src.numBytes != 0) \
                return 1000; \
        } \
        return total; \
    }

CONV(8_16le, UTF16_LE, UTF8)
CONV(16le_8, UTF8, UTF16_LE)
CONV(8_16be, UTF16_BE, UTF8)
CONV(16be_8, UTF8, UTF16_BE)
CONV(8_8, UTF8, UTF8)
CONV(b_8, UTF8, Enc_Bytes)
