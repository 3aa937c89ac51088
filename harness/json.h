#pragma once
// strict RFC 8259 parser for flat objects, as used by Property Exchange headers
#include <cctype>
#include <string>
#include <utility>
#include <vector>

namespace h {

struct JVal
{
    enum T { string, number, other } type{ other };
    std::string text;
    bool        operator==(const JVal& o) const { return type == o.type && text == o.text; }
};
using JObj = std::vector<std::pair<std::string, JVal>>;

inline bool json_number(const std::string& t)
{
    size_t i = 0;
    if (i < t.size() && t[i] == '-')
        ++i;
    if (i >= t.size() || !isdigit((unsigned char)t[i]))
        return false;
    if (t[i] == '0')
        ++i;
    else
        while (i < t.size() && isdigit((unsigned char)t[i]))
            ++i;
    return i == t.size();
}

inline bool parse_object(const std::string& s, JObj& out)
{
    size_t p  = 0;
    auto   ws = [&] { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) ++p; };
    auto   str = [&](std::string& r) {
        if (p >= s.size() || s[p] != '"')
            return false;
        for (++p; p < s.size(); ++p)
        {
            if (s[p] == '"')
            {
                ++p;
                return true;
            }
            if (s[p] == '\\')
            {
                if (++p >= s.size())
                    return false;
                switch (s[p])
                {
                case '"': case '\\': case '/': r += s[p]; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'n': r += '\n'; break;
                case 'r': r += '\r'; break;
                case 't': r += '\t'; break;
                default: return false;
                }
            }
            else if ((unsigned char)s[p] < 0x20)
                return false;
            else
                r += s[p];
        }
        return false;
    };
    out.clear();
    ws();
    if (p >= s.size() || s[p++] != '{')
        return false;
    ws();
    if (p < s.size() && s[p] == '}')
        ++p;
    else
        for (;;)
        {
            std::string key;
            JVal        v;
            ws();
            if (!str(key))
                return false;
            ws();
            if (p >= s.size() || s[p++] != ':')
                return false;
            ws();
            if (p < s.size() && s[p] == '"')
            {
                v.type = JVal::string;
                if (!str(v.text))
                    return false;
            }
            else
            {
                while (p < s.size() && s[p] != ',' && s[p] != '}' && s[p] != ' ' && s[p] != '\n')
                    v.text += s[p++];
                if (json_number(v.text))
                    v.type = JVal::number;
                else if (v.text == "true" || v.text == "false" || v.text == "null")
                    v.type = JVal::other;
                else
                    return false;
            }
            out.emplace_back(key, v);
            ws();
            if (p >= s.size())
                return false;
            if (s[p] == ',')
            {
                ++p;
                continue;
            }
            if (s[p] == '}')
            {
                ++p;
                break;
            }
            return false;
        }
    ws();
    return p == s.size();
}

} // namespace h
