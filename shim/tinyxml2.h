// Stand-in for tinyxml2: elements, attributes, text and the predefined entities.
#pragma once
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace tinyxml2
{
class XMLElement
{
  public:
    const XMLElement* FirstChildElement(const char* n = nullptr) const
    {
        for (const auto& c : children)
            if (!n || c->name == n)
                return c.get();
        return nullptr;
    }
    XMLElement*       FirstChildElement(const char* n = nullptr) { return const_cast<XMLElement*>(static_cast<const XMLElement*>(this)->FirstChildElement(n)); }
    const XMLElement* NextSiblingElement(const char* n = nullptr) const
    {
        for (std::size_t i = index + 1; i < parent->children.size(); ++i)
            if (!n || parent->children[i]->name == n)
                return parent->children[i].get();
        return nullptr;
    }
    // the text that precedes all child elements
    const char* GetText() const { return has_text ? text.c_str() : nullptr; }
    const char* Attribute(const char* n, const char* v = nullptr) const
    {
        for (const auto& a : attributes)
            if (a.first == n)
                return !v || a.second == v ? a.second.c_str() : nullptr;
        return nullptr;
    }
    const char* Name() const { return name.c_str(); }

    std::string                                      name, text;
    bool                                             has_text{false};
    std::vector<std::pair<std::string, std::string>> attributes;
    std::vector<std::unique_ptr<XMLElement>>         children;
    XMLElement*                                      parent{nullptr};
    std::size_t                                      index{0};
};
enum XMLError
{
    XML_SUCCESS = 0,
    XML_ERROR_PARSING = 14,
    XML_ERROR_EMPTY_DOCUMENT = 13
};
class XMLDocument : public XMLElement
{
  public:
    XMLError Parse(const char* s)
    {
        p     = s;
        error = XML_SUCCESS;
        skip_space();
        if (!*p)
            return error = XML_ERROR_EMPTY_DOCUMENT;
        content(*this);
        if (error == XML_SUCCESS && *p)
            error = XML_ERROR_PARSING;
        return error;
    }
    XMLError    ErrorID() const { return error; }
    bool        Error() const { return error != XML_SUCCESS; }
    const char* ErrorName() const { return error == XML_SUCCESS ? "XML_SUCCESS" : error == XML_ERROR_PARSING ? "XML_ERROR_PARSING" : "XML_ERROR_EMPTY_DOCUMENT"; }

  private:
    const char* p{nullptr};
    XMLError    error{XML_SUCCESS};

    static bool space(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
    static bool word(char c) { return c != 0 && !space(c) && c != '<' && c != '>' && c != '/' && c != '=' && c != '"' && c != '\''; }
    bool        starts(const char* s) const
    {
        std::size_t i = 0;
        while (s[i] && p[i] == s[i])
            ++i;
        return !s[i];
    }
    void skip_space()
    {
        while (space(*p))
            ++p;
    }
    bool fail()
    {
        error = XML_ERROR_PARSING;
        return false;
    }
    bool until(const char* end)
    {
        while (*p && !starts(end))
            ++p;
        if (!*p)
            return fail();
        while (*end++)
            ++p;
        return true;
    }
    std::string name_at()
    {
        std::string n;
        while (word(*p))
            n += *p++;
        return n;
    }
    void append(std::string& t)
    {
        static constexpr std::pair<const char*, char> entities[] = {{"&lt;", '<'}, {"&gt;", '>'}, {"&amp;", '&'}, {"&quot;", '"'}, {"&apos;", '\''}};
        if (*p == '&')
            for (const auto& e : entities)
                if (starts(e.first))
                {
                    t += e.second;
                    p += std::strlen(e.first);
                    return;
                }
        t += *p++;
    }
    bool content(XMLElement& e)
    {
        for (;;)
        {
            const char* begin = p;
            skip_space();
            if (!*p)
                return &e == this || fail();
            if (*p != '<')
            {
                p = begin;
                std::string t;
                while (*p && *p != '<')
                    append(t);
                if (&e == this)
                    return fail();
                if (e.children.empty() && !e.has_text)
                {
                    e.text     = t;
                    e.has_text = true;
                }
                continue;
            }
            if (starts("<!--"))
            {
                if (!until("-->"))
                    return false;
                continue;
            }
            if (starts("<?"))
            {
                if (!until("?>"))
                    return false;
                continue;
            }
            if (starts("</"))
            {
                p += 2;
                const auto n = name_at();
                skip_space();
                if (&e == this || n != e.name || *p != '>')
                    return fail();
                ++p;
                return true;
            }
            ++p;
            auto c  = std::make_unique<XMLElement>();
            c->name = name_at();
            if (c->name.empty())
                return fail();
            c->parent = &e;
            c->index  = e.children.size();
            for (;;)
            {
                skip_space();
                if (!word(*p))
                    break;
                std::pair<std::string, std::string> a;
                a.first = name_at();
                skip_space();
                if (*p++ != '=')
                    return fail();
                skip_space();
                const char q = *p++;
                if (q != '"' && q != '\'')
                    return fail();
                while (*p && *p != q)
                    append(a.second);
                if (!*p)
                    return fail();
                ++p;
                c->attributes.push_back(std::move(a));
            }
            auto& r = *c;
            e.children.push_back(std::move(c));
            if (starts("/>"))
            {
                p += 2;
                continue;
            }
            if (*p++ != '>')
                return fail();
            if (!content(r))
                return false;
        }
    }
};
}  // namespace tinyxml2
