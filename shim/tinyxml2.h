// Stand-in for tinyxml2 (not installed): a small conforming subset (elements, attributes, text, comments, declarations, the
// five named entities and character references).
#pragma once
#include <cctype>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace tinyxml2
{
enum XMLError { XML_SUCCESS = 0, XML_ERROR_PARSING = 13, XML_ERROR_EMPTY_DOCUMENT = 14, XML_ERROR_MISMATCHED_ELEMENT = 15 };
class XMLElement
{
  public:
    const char* Name() const { return name.c_str(); }
    const char* Attribute(const char* n, const char* v = nullptr) const
    {
        const auto it = attrs.find(n);
        if (it == attrs.end() || (v && it->second != v)) { return nullptr; }
        return it->second.c_str();
    }
    const char* GetText() const { return first_is_text ? text.c_str() : nullptr; }
    const XMLElement* FirstChildElement(const char* n = nullptr) const
    {
        for (auto const& c : children) { if (!n || c->name == n) { return c.get(); } }
        return nullptr;
    }
    XMLElement* FirstChildElement(const char* n = nullptr)
    {
        return const_cast<XMLElement*>(static_cast<const XMLElement*>(this)->FirstChildElement(n));
    }
    const XMLElement* NextSiblingElement(const char* n = nullptr) const
    {
        if (!parent) { return nullptr; }
        for (std::size_t i = pos + 1; i < parent->children.size(); ++i)
        {
            if (!n || parent->children[i]->name == n) { return parent->children[i].get(); }
        }
        return nullptr;
    }
    XMLElement* NextSiblingElement(const char* n = nullptr)
    {
        return const_cast<XMLElement*>(static_cast<const XMLElement*>(this)->NextSiblingElement(n));
    }

  private:
    friend class XMLDocument;
    std::string                              name, text;
    bool                                     first_is_text{false};
    std::map<std::string, std::string>       attrs;
    std::vector<std::unique_ptr<XMLElement>> children;
    XMLElement*                              parent{nullptr};
    std::size_t                              pos{0};
};
class XMLDocument
{
  public:
    XMLError Parse(const char* s, std::size_t n = static_cast<std::size_t>(-1))
    {
        src  = n == static_cast<std::size_t>(-1) ? std::string(s) : std::string(s, n);
        p    = 0;
        err  = XML_SUCCESS;
        root = XMLElement{};
        misc();
        if (p >= src.size()) { return err = XML_ERROR_EMPTY_DOCUMENT; }
        while (p < src.size() && err == XML_SUCCESS)
        {
            if (src[p] != '<') { err = XML_ERROR_PARSING; break; }
            element(root);
            misc();
        }
        if (err != XML_SUCCESS) { root.children.clear(); }
        return err;
    }
    XMLError    ErrorID() const { return err; }
    bool        Error() const { return err != XML_SUCCESS; }
    const char* ErrorName() const { return err == XML_SUCCESS ? "XML_SUCCESS" : "XML_ERROR"; }
    const char* ErrorStr() const { return ErrorName(); }
    XMLElement* FirstChildElement(const char* n = nullptr) { return root.FirstChildElement(n); }
    const XMLElement* FirstChildElement(const char* n = nullptr) const { return root.FirstChildElement(n); }
    XMLElement* RootElement() { return root.FirstChildElement(); }

  private:
    bool starts(const char* s) const { return src.compare(p, std::strlen(s), s) == 0; }
    void skip(const char* end)
    {
        const auto q = src.find(end, p);
        if (q == std::string::npos) { err = XML_ERROR_PARSING; p = src.size(); }
        else { p = q + std::strlen(end); }
    }
    void ws() { while (p < src.size() && std::isspace(static_cast<unsigned char>(src[p]))) { ++p; } }
    void misc()
    {
        for (;;)
        {
            ws();
            if (starts("<?")) { skip("?>"); }
            else if (starts("<!--")) { skip("-->"); }
            else if (starts("<!")) { skip(">"); }
            else { return; }
        }
    }
    static bool nc(char c) { return std::isalnum(static_cast<unsigned char>(c)) || c == '_' || c == ':' || c == '-' || c == '.' || (c & 0x80); }
    std::string nm()
    {
        const auto b = p;
        while (p < src.size() && nc(src[p])) { ++p; }
        if (b == p) { err = XML_ERROR_PARSING; }
        return src.substr(b, p - b);
    }
    static std::string unesc(const std::string& s)
    {
        std::string r;
        for (std::size_t i = 0; i < s.size(); ++i)
        {
            if (s[i] == '&')
            {
                const auto e = s.find(';', i);
                if (e != std::string::npos)
                {
                    const auto n = s.substr(i + 1, e - i - 1);
                    const char* rep = n == "lt" ? "<" : n == "gt" ? ">" : n == "amp" ? "&" : n == "quot" ? "\"" : n == "apos" ? "'" : nullptr;
                    if (rep) { r += rep; i = e; continue; }
                    if (n.size() > 1 && n[0] == '#')
                    {
                        r += static_cast<char>(n[1] == 'x' ? std::strtol(n.c_str() + 2, nullptr, 16) : std::strtol(n.c_str() + 1, nullptr, 10));
                        i = e;
                        continue;
                    }
                }
            }
            r += s[i];
        }
        return r;
    }
    void element(XMLElement& par)
    {
        ++p;
        auto e    = std::make_unique<XMLElement>();
        auto* el  = e.get();
        el->name  = nm();
        el->parent = &par;
        el->pos   = par.children.size();
        while (err == XML_SUCCESS)
        {
            ws();
            if (starts("/>")) { p += 2; par.children.push_back(std::move(e)); return; }
            if (p < src.size() && src[p] == '>') { ++p; break; }
            const auto a = nm();
            if (err != XML_SUCCESS) { return; }
            ws();
            if (p >= src.size() || src[p] != '=') { err = XML_ERROR_PARSING; return; }
            ++p;
            ws();
            if (p >= src.size() || (src[p] != '"' && src[p] != '\'')) { err = XML_ERROR_PARSING; return; }
            const char q = src[p++];
            const auto end = src.find(q, p);
            if (end == std::string::npos) { err = XML_ERROR_PARSING; return; }
            el->attrs[a] = unesc(src.substr(p, end - p));
            p = end + 1;
        }
        par.children.push_back(std::move(e));
        bool first = true;
        while (err == XML_SUCCESS)
        {
            const auto b = src.find('<', p);
            if (b == std::string::npos) { err = XML_ERROR_PARSING; return; }
            const auto t = src.substr(p, b - p);
            if (t.find_first_not_of(" \t\r\n") != std::string::npos)
            {
                if (first) { el->text = unesc(t); el->first_is_text = true; }
                first = false;
            }
            p = b;
            if (starts("<!--")) { skip("-->"); continue; }
            if (starts("</"))
            {
                p += 2;
                const auto n = nm();
                ws();
                if (n != el->name || p >= src.size() || src[p] != '>') { err = XML_ERROR_MISMATCHED_ELEMENT; return; }
                ++p;
                return;
            }
            element(*el);
            first = false;
        }
    }
    std::string src;
    std::size_t p{0};
    XMLError    err{XML_SUCCESS};
    XMLElement  root;
};
}  // namespace tinyxml2
