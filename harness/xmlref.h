/* An XML document in a form which is the same for all ways of writing it: namespaces rather than prefixes,
 * attributes in order, no spaces between elements.
 */

#ifndef XMLREF_H
#define XMLREF_H

#include <libxml/parser.h>
#include <libxml/tree.h>
#include <set>
#include <string>
#include <vector>

namespace xmlref {

inline std::string escape(std::string const& s)
{
	std::string o;
	for (char c: s) {
		switch (c) {
		case '&': o += "&amp;"; break;
		case '<': o += "&lt;"; break;
		case '>': o += "&gt;"; break;
		case '"': o += "&quot;"; break;
		default: o += c;
		}
	}
	return o;
}

inline std::string tag(std::string const& name, std::string const& content)
{
	return "<" + name + ">" + escape(content) + "</" + name.substr(0, name.find(' ')) + ">";
}

inline std::string nest(std::string const& name, std::string const& content)
{
	return "<" + name + ">" + content + "</" + name.substr(0, name.find(' ')) + ">";
}

/** @param hide path (of names) of an element whose content is to be left out */
inline void canonical(xmlNode const* n, std::string& out, std::string const& path, std::set<std::string> const& hide)
{
	auto name = [](xmlNs const* ns, xmlChar const* name) {
		return (ns && ns->href ? "{" + std::string(reinterpret_cast<char const*>(ns->href)) + "}" : std::string()) + reinterpret_cast<char const*>(name);
	};
	auto const here = path + "/" + reinterpret_cast<char const*>(n->name);
	out += "<" + name(n->ns, n->name);
	std::set<std::string> attributes;
	for (auto a = n->properties; a; a = a->next) {
		auto const v = xmlNodeListGetString(n->doc, a->children, 1);
		attributes.insert(name(a->ns, a->name) + "=\"" + (v ? reinterpret_cast<char const*>(v) : "") + "\"");
		xmlFree(v);
	}
	for (auto const& a: attributes) {
		out += " " + a;
	}
	out += ">";
	if (hide.count(here)) {
		out += "...";
	} else {
		bool elements = false;
		for (auto c = n->children; c; c = c->next) {
			elements = elements || c->type == XML_ELEMENT_NODE;
		}
		for (auto c = n->children; c; c = c->next) {
			if (c->type == XML_ELEMENT_NODE) {
				canonical(c, out, here, hide);
			} else if (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) {
				std::string const t = c->content ? reinterpret_cast<char const*>(c->content) : "";
				if (!elements || t.find_first_not_of(" \n\r\t") != std::string::npos) {
					out += t;
				}
			}
		}
	}
	out += "</>\n";
}

/** @return canonical form, or empty if it is not well-formed XML */
inline std::string canonical(std::string const& text, std::set<std::string> const& hide = {})
{
	auto doc = xmlReadMemory(text.data(), text.size(), "x.xml", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
	if (!doc) {
		return {};
	}
	std::string out;
	if (auto root = xmlDocGetRootElement(doc)) {
		canonical(root, out, "", hide);
	}
	xmlFreeDoc(doc);
	return out;
}

/** A parsed element */
struct Node
{
	std::string ns;
	std::string name;
	std::string text;
	std::vector<std::pair<std::string, std::string>> attributes;
	std::vector<Node> children;

	Node() {}

	explicit Node(xmlNode const* n)
		: ns(n->ns && n->ns->href ? reinterpret_cast<char const*>(n->ns->href) : "")
		, name(reinterpret_cast<char const*>(n->name))
	{
		for (auto a = n->properties; a; a = a->next) {
			auto const v = xmlNodeListGetString(n->doc, a->children, 1);
			attributes.push_back({ reinterpret_cast<char const*>(a->name), v ? reinterpret_cast<char const*>(v) : "" });
			xmlFree(v);
		}
		for (auto c = n->children; c; c = c->next) {
			if (c->type == XML_ELEMENT_NODE) {
				children.push_back(Node(c));
			} else if (c->content && (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE)) {
				text += reinterpret_cast<char const*>(c->content);
			}
		}
	}

	/** @return children with a name */
	std::vector<Node> all(std::string const& n) const {
		std::vector<Node> o;
		for (auto const& c: children) {
			if (c.name == n) {
				o.push_back(c);
			}
		}
		return o;
	}

	/** @return the text of the only child with a name, or (none) or (several) */
	std::string child(std::string const& n) const {
		auto const a = all(n);
		return a.empty() ? "(none)" : (a.size() > 1 ? "(several)" : a[0].text);
	}

	Node one(std::string const& n) const {
		auto const a = all(n);
		return a.size() == 1 ? a[0] : Node();
	}
};

/** @return the root of a document, with no name if it is not well-formed */
inline Node parse(std::string const& text)
{
	auto doc = xmlReadMemory(text.data(), text.size(), "x.xml", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
	Node out;
	if (doc) {
		if (auto root = xmlDocGetRootElement(doc)) {
			out = Node(root);
		}
		xmlFreeDoc(doc);
	}
	return out;
}

/** @return the first lines at which a and b differ */
inline std::string difference(std::string const& a, std::string const& b)
{
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) {
		++i;
	}
	size_t const from = i < 150 ? 0 : i - 150;
	return "\"" + a.substr(from, 300) + "\" instead of \"" + b.substr(from, 300) + "\"";
}

}

#endif
