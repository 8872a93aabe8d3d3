// Stand-in for cppcodec's header of the same name (not available offline): the
// RFC 4648 base64 codec with the two call forms that DNDSR uses.
#pragma once
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
namespace cppcodec
{
    struct base64_rfc4648
    {
        static std::string encode(const uint8_t *d, size_t n)
        {
            static const char *t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            std::string o;
            o.reserve((n + 2) / 3 * 4);
            for (size_t i = 0; i < n; i += 3)
            {
                uint32_t v = uint32_t(d[i]) << 16;
                if (i + 1 < n)
                    v |= uint32_t(d[i + 1]) << 8;
                if (i + 2 < n)
                    v |= d[i + 2];
                o += t[v >> 18 & 63];
                o += t[v >> 12 & 63];
                o += i + 1 < n ? t[v >> 6 & 63] : '=';
                o += i + 2 < n ? t[v & 63] : '=';
            }
            return o;
        }
        static std::string encode(const char *d, size_t n) { return encode((const uint8_t *)d, n); }
        template <class C>
        static std::string encode(const C &c) { return encode((const uint8_t *)c.data(), c.size() * sizeof(*c.data())); }
        template <class C>
        static void decode(C &out, const std::string &s)
        {
            out.clear();
            uint32_t v = 0;
            int nb = 0;
            for (char ch : s)
            {
                int k;
                if (ch >= 'A' && ch <= 'Z')
                    k = ch - 'A';
                else if (ch >= 'a' && ch <= 'z')
                    k = ch - 'a' + 26;
                else if (ch >= '0' && ch <= '9')
                    k = ch - '0' + 52;
                else if (ch == '+')
                    k = 62;
                else if (ch == '/')
                    k = 63;
                else if (ch == '=')
                    break;
                else
                    throw std::runtime_error("base64: bad symbol");
                v = v << 6 | uint32_t(k);
                nb += 6;
                if (nb >= 8)
                {
                    nb -= 8;
                    out.push_back(typename C::value_type(v >> nb & 255));
                }
            }
        }
        static std::vector<uint8_t> decode(const std::string &s)
        {
            std::vector<uint8_t> o;
            decode(o, s);
            return o;
        }
    };
}
