// minimal stand-in for cppcodec's base64_rfc4648 (not installed here): encode to std::string, decode to a byte container
#pragma once
#include <string>
#include <vector>
#include <stdexcept>
#include <cstdint>
namespace cppcodec
{
    struct base64_rfc4648
    {
        static std::string encode(const uint8_t *p, size_t n)
        {
            static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            std::string o;
            for (size_t i = 0; i < n; i += 3)
            {
                uint32_t v = p[i] << 16;
                if (i + 1 < n) v |= p[i + 1] << 8;
                if (i + 2 < n) v |= p[i + 2];
                o += T[v >> 18 & 63];
                o += T[v >> 12 & 63];
                o += i + 1 < n ? T[v >> 6 & 63] : '=';
                o += i + 2 < n ? T[v & 63] : '=';
            }
            return o;
        }
        template <class C>
        static std::string encode(const C &c) { return encode((const uint8_t *)c.data(), c.size()); }
        template <class C>
        static void decode(C &out, const std::string &s)
        {
            auto d = [](char c) -> int
            {
                if (c >= 'A' && c <= 'Z') return c - 'A';
                if (c >= 'a' && c <= 'z') return c - 'a' + 26;
                if (c >= '0' && c <= '9') return c - '0' + 52;
                if (c == '+') return 62;
                if (c == '/') return 63;
                throw std::runtime_error("bad base64");
            };
            out.clear();
            if (s.size() % 4)
                throw std::runtime_error("bad base64 length");
            for (size_t i = 0; i < s.size(); i += 4)
            {
                int pad = (s[i + 2] == '=') + (s[i + 3] == '=');
                uint32_t v = d(s[i]) << 18 | d(s[i + 1]) << 12 | (pad < 2 ? d(s[i + 2]) << 6 : 0) | (pad < 1 ? d(s[i + 3]) : 0);
                out.push_back(v >> 16 & 255);
                if (pad < 2) out.push_back(v >> 8 & 255);
                if (pad < 1) out.push_back(v & 255);
            }
        }
    };
}
