// Stand-in for tinyxml2: the read-only DOM that fiction's parsers use. Follows tinyxml2's documented behaviour in
// what fiction can observe: elements in document order, first text child, attributes, entity decoding, comments,
// CDATA, declarations, and the error ids for empty and malformed documents.
#pragma once
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace tinyxml2
{
enum XMLError
{
    XML_SUCCESS = 0,
    XML_ERROR_PARSING_ELEMENT = 6,
    XML_ERROR_PARSING_ATTRIBUTE = 7,
    XML_ERROR_PARSING_TEXT = 8,
    XML_ERROR_PARSING_CDATA = 9,
    XML_ERROR_PARSING_COMMENT = 10,
    XML_ERROR_PARSING_DECLARATION = 11,
    XML_ERROR_PARSING_UNKNOWN = 12,
    XML_ERROR_EMPTY_DOCUMENT = 13,
    XML_ERROR_MISMATCHED_ELEMENT = 14,
    XML_ERROR_PARSING = 15
};
class XMLElement
{
  public:
    const char* Name() const { return name.c_str(); }
    const char* Value() const { return name.c_str(); }
    const XMLElement* FirstChildElement(const char* n = nullptr) const
    {
        for (const auto& k : kids)
            if (k->elem && (!n || k->name == n)) return k.get();
        return nullptr;
    }
    XMLElement* FirstChildElement(const char* n = nullptr)
    {
        return const_cast<XMLElement*>(static_cast<const XMLElement*>(this)->FirstChildElement(n));
    }
    const XMLElement* NextSiblingElement(const char* n = nullptr) const
    {
        if (!parent) return nullptr;
        bool past = false;
        for (const auto& k : parent->kids)
        {
            if (past && k->elem && (!n || k->name == n)) return k.get();
            if (k.get() == this) past = true;
        }
        return nullptr;
    }
    XMLElement* NextSiblingElement(const char* n = nullptr)
    {
        return const_cast<XMLElement*>(static_cast<const XMLElement*>(this)->NextSiblingElement(n));
    }
    const char* Attribute(const char* a) const
    {
        for (const auto& kv : attrs)
            if (kv.first == a) return kv.second.c_str();
        return nullptr;
    }
    const char* GetText() const
    {
        for (const auto& k : kids)
        {
            if (k->comment) continue;
            return k->elem ? nullptr : k->name.c_str();
        }
        return nullptr;
    }

  private:
    friend class XMLDocument;
    std::string name{};  // element name or text
    bool        elem{true}, comment{false};
    std::vector<std::pair<std::string, std::string>> attrs{};
    std::vector<std::unique_ptr<XMLElement>>         kids{};
    XMLElement*                                      parent{nullptr};
};
class XMLDocument
{
  public:
    XMLError Parse(const char* text, size_t n = static_cast<size_t>(-1))
    {
        root = std::make_unique<XMLElement>();
        s    = n == static_cast<size_t>(-1) ? std::string{text} : std::string{text, n};
        p    = 0;
        err  = XML_SUCCESS;
        if (s.compare(0, 3, "\xEF\xBB\xBF") == 0) p = 3;
        skip();
        if (p >= s.size()) return err = XML_ERROR_EMPTY_DOCUMENT;
        parse(root.get(), "");
        if (err != XML_SUCCESS) root = std::make_unique<XMLElement>();
        return err;
    }
    int  ErrorID() const { return err; }
    bool Error() const { return err != XML_SUCCESS; }
    const char* ErrorName() const
    {
        switch (err)
        {
            case XML_SUCCESS: return "XML_SUCCESS";
            case XML_ERROR_PARSING_ELEMENT: return "XML_ERROR_PARSING_ELEMENT";
            case XML_ERROR_PARSING_ATTRIBUTE: return "XML_ERROR_PARSING_ATTRIBUTE";
            case XML_ERROR_PARSING_TEXT: return "XML_ERROR_PARSING_TEXT";
            case XML_ERROR_PARSING_CDATA: return "XML_ERROR_PARSING_CDATA";
            case XML_ERROR_PARSING_COMMENT: return "XML_ERROR_PARSING_COMMENT";
            case XML_ERROR_PARSING_DECLARATION: return "XML_ERROR_PARSING_DECLARATION";
            case XML_ERROR_PARSING_UNKNOWN: return "XML_ERROR_PARSING_UNKNOWN";
            case XML_ERROR_EMPTY_DOCUMENT: return "XML_ERROR_EMPTY_DOCUMENT";
            case XML_ERROR_MISMATCHED_ELEMENT: return "XML_ERROR_MISMATCHED_ELEMENT";
            default: return "XML_ERROR_PARSING";
        }
    }
    const XMLElement* FirstChildElement(const char* n = nullptr) const { return root ? root->FirstChildElement(n) : nullptr; }
    XMLElement*       FirstChildElement(const char* n = nullptr) { return root ? root->FirstChildElement(n) : nullptr; }
    const XMLElement* RootElement() const { return FirstChildElement(); }

  private:
    static bool ws(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == '\v' || c == '\f'; }
    static bool ns(char c) { return std::isalpha(static_cast<unsigned char>(c)) || c == '_' || c == ':' || static_cast<unsigned char>(c) >= 128; }
    static bool nc(char c) { return ns(c) || std::isdigit(static_cast<unsigned char>(c)) || c == '.' || c == '-'; }
    void        skip() { while (p < s.size() && ws(s[p])) ++p; }
    bool        at(const char* t) const { return s.compare(p, std::strlen(t), t) == 0; }
    bool        fail(XMLError e) { if (err == XML_SUCCESS) err = e; return false; }
    static std::string decode(const std::string& t)
    {
        static const std::pair<const char*, const char*> ent[]{{"&quot;", "\""}, {"&amp;", "&"}, {"&apos;", "'"}, {"&lt;", "<"}, {"&gt;", ">"}};
        std::string o;
        for (size_t i = 0; i < t.size();)
        {
            if (t[i] == '\r') { o += '\n'; i += (i + 1 < t.size() && t[i + 1] == '\n') ? 2 : 1; continue; }
            if (t[i] == '&')
            {
                bool hit = false;
                for (const auto& e : ent)
                    if (t.compare(i, std::strlen(e.first), e.first) == 0) { o += e.second; i += std::strlen(e.first); hit = true; break; }
                if (hit) continue;
                if (i + 2 < t.size() && t[i + 1] == '#')
                {
                    const auto semi = t.find(';', i);
                    if (semi != std::string::npos)
                    {
                        const bool hex = t[i + 2] == 'x';
                        const auto v   = std::strtoul(t.c_str() + i + (hex ? 3 : 2), nullptr, hex ? 16 : 10);
                        if (v && v < 128) { o += static_cast<char>(v); i = semi + 1; continue; }
                    }
                }
            }
            o += t[i++];
        }
        return o;
    }
    XMLElement* add(XMLElement* par, bool elem, bool comment, std::string text)
    {
        par->kids.push_back(std::make_unique<XMLElement>());
        auto* k    = par->kids.back().get();
        k->elem    = elem;
        k->comment = comment;
        k->name    = std::move(text);
        k->parent  = par;
        return k;
    }
    bool parse(XMLElement* par, const std::string& closing)
    {
        for (;;)
        {
            const auto start = p;
            skip();
            if (p >= s.size()) return closing.empty() ? err == XML_SUCCESS : fail(XML_ERROR_PARSING);
            if (s[p] != '<')
            {
                const auto e = s.find('<', start);
                if (e == std::string::npos) return fail(XML_ERROR_PARSING_TEXT);
                if (closing.empty()) return fail(XML_ERROR_PARSING_TEXT);
                add(par, false, false, decode(s.substr(start, e - start)));
                p = e;
                continue;
            }
            if (at("<?"))
            {
                const auto e = s.find("?>", p);
                if (e == std::string::npos) return fail(XML_ERROR_PARSING_DECLARATION);
                p = e + 2;
                continue;
            }
            if (at("<!--"))
            {
                const auto e = s.find("-->", p);
                if (e == std::string::npos) return fail(XML_ERROR_PARSING_COMMENT);
                add(par, false, true, s.substr(p + 4, e - p - 4));
                p = e + 3;
                continue;
            }
            if (at("<![CDATA["))
            {
                const auto e = s.find("]]>", p);
                if (e == std::string::npos) return fail(XML_ERROR_PARSING_CDATA);
                add(par, false, false, s.substr(p + 9, e - p - 9));
                p = e + 3;
                continue;
            }
            if (at("<!"))
            {
                const auto e = s.find('>', p);
                if (e == std::string::npos) return fail(XML_ERROR_PARSING_UNKNOWN);
                p = e + 1;
                continue;
            }
            if (at("</"))
            {
                p += 2;
                skip();
                std::string n;
                while (p < s.size() && nc(s[p])) n += s[p++];
                skip();
                if (p >= s.size() || s[p] != '>') return fail(XML_ERROR_PARSING_ELEMENT);
                ++p;
                if (closing.empty() || n != closing) return fail(XML_ERROR_MISMATCHED_ELEMENT);
                return true;
            }
            ++p;
            skip();
            std::string n;
            if (p >= s.size() || !ns(s[p])) return fail(XML_ERROR_PARSING_ELEMENT);
            while (p < s.size() && nc(s[p])) n += s[p++];
            auto* k = add(par, true, false, n);
            for (;;)
            {
                skip();
                if (p >= s.size()) return fail(XML_ERROR_PARSING_ELEMENT);
                if (s[p] == '>') { ++p; if (!parse(k, n)) return false; break; }
                if (at("/>")) { p += 2; break; }
                if (!ns(s[p])) return fail(XML_ERROR_PARSING_ELEMENT);
                std::string a;
                while (p < s.size() && nc(s[p])) a += s[p++];
                skip();
                if (p >= s.size() || s[p] != '=') return fail(XML_ERROR_PARSING_ATTRIBUTE);
                ++p;
                skip();
                if (p >= s.size() || (s[p] != '"' && s[p] != '\'')) return fail(XML_ERROR_PARSING_ATTRIBUTE);
                const auto q = s[p];
                const auto e = s.find(q, ++p);
                if (e == std::string::npos || k->Attribute(a.c_str())) return fail(XML_ERROR_PARSING_ATTRIBUTE);
                k->attrs.emplace_back(a, decode(s.substr(p, e - p)));
                p = e + 1;
            }
        }
    }
    std::unique_ptr<XMLElement> root{};
    std::string                 s{};
    size_t                      p{0};
    XMLError                    err{XML_SUCCESS};
};
}  // namespace tinyxml2
